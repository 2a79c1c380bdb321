"""What a unit that includes nothing but one header does with it: each must build and exit with 0."""
USES = {
 "amtl/am-allocator-policies.h": "ke::SystemAllocatorPolicy p; void* m = p.am_malloc(8); p.am_free(m); return m == 0;",
 "amtl/am-arithmetic.h": "uint64_t r = 0; uint32_t s = 0; return !(ke::TryUint64Multiply(3, 4, &r) && r == 12 && ke::TryUint32Add(1, 2, &s) && s == 3 && ke::TryUint64Add(1, 2, &r) && r == 3);",
 "amtl/am-assert.h": "int n = 0; KE_RELEASE_ASSERT(++n == 1); return n - 1;",
 "amtl/am-bits.h": "return !(ke::Log2(size_t(8)) == 3 && ke::FindLeftmostBit32(8) == 3 && ke::FindLeftmostBit64(8) == 3 && ke::FindRightmostBit(size_t(8)) == 3 && ke::IsPowerOfTwo(size_t(8)) && ke::Align(size_t(5), size_t(8)) == 8 && ke::kKB == 1024);",
 "amtl/am-cxx.h": "return 0;",
 "amtl/am-deque.h": "std::deque<int> d{1, 2, 3}; return !(ke::PopBack(&d) == 3 && ke::PopFront(&d) == 1 && d.size() == 1);",
 "amtl/am-enum.h": "E e = E::A | E::B; e &= ~E::A; e |= E::A; e ^= E::B; return !(e == E::A && !(e & E::B));",
 "amtl/am-fixedarray.h": "ke::FixedArray<int> a(3); a[0] = 4; ke::FixedArray<int> b(std::move(a)); a = std::move(b); int s = 0; for (int x : a) s += x; return !(a.size() == 3 && a.at(0) == 4);",
 "amtl/am-flags.h": "ke::Flags<E> f(E::A); f |= E::B; f -= E::A; return !(f == E::B && f.bits() == 2);",
 "amtl/am-float.h": "return !(!ke::IsNaN(1.0) && !ke::IsInfinite(1.0f) && ke::FloatModulo(5.0, 3.0) == 2.0 && ke::FloatModulo(5.0f, 3.0f) == 2.0f);",
 "amtl/am-function.h": "long x[9] = {5}; ke::Function<int(int)> f([=](int a) { return a + (int)x[0]; }), g(f), h; h = std::move(g); return !(h(1) == 6 && f && !g);",
 "amtl/am-hashmap.h": "ke::HashMap<int, int, P> m; m.init(); auto i = m.findForAdd(3); m.add(i, 3, 4); int n = 0; for (auto it = m.iter(); !it.empty(); it.next()) n += it->value; return !(n == 4 && m.find(3).found());",
 "amtl/am-hashset.h": "ke::HashSet<int, P> m; m.init(); m.add(3); m.add(3); return !(m.has(3) && m.elements() == 1);",
 "amtl/am-hashtable.h": "ke::HashTable<Q> t; t.init(); auto i = t.findForAdd(3); t.add(i, 3); t.removeIfExists(3); return !(t.elements() == 0 && ke::HashCharSequence(\"a\", 1) == ke::HashCharSequence(\"a\", 1) && ke::HashInteger<4>(5) == ke::HashInteger<4>(5) && ke::HashPointer(&t) == ke::HashPointer(&t));",
 "amtl/am-inlinelist.h": "N a, b; ke::InlineList<N> l; l.append(&a); l.append(&b); int n = 0; for (auto x : l) n += x == &a || x == &b; l.remove(&a); l.remove(&b); return !(n == 2 && l.empty());",
 "amtl/am-linking.h": "return 0;",
 "amtl/am-maybe.h": "ke::Maybe<int> m; m.init(4); ke::Maybe<int> n(ke::Some(5)); n = ke::Nothing(); ke::Maybe<int> o(std::move(m)); return !(*o == 4 && !n);",
 "amtl/am-mutex.h": "ke::Mutex m; m.lock(); m.AssertCurrentThreadOwns(); m.unlock(); return !m.try_lock();",
 "amtl/am-platform.h": "return 0;",
 "amtl/am-priority-queue.h": "ke::PriorityQueue<int> q; q.add(3); q.emplace(1); return !(q.peek() == 1 && q.pop() == 1 && q.pop() == 3 && q.empty());",
 "amtl/am-raii.h": "int x = 1; { ke::SaveAndSet<int> s(&x, 5); if (x != 5) return 1; } return x - 1;",
 "amtl/am-refcounting-threadsafe.h": "ke::RefPtr<T> p(new T); ke::AtomicRef<T> a(p.get()); ke::RefPtr<T> q(a.get()); a = nullptr; V* v = new V; v->AddRef(); v->Release(); return q.get() != p.get();",
 "amtl/am-refcounting.h": "ke::RefPtr<R> p(new R), q(p); p = nullptr; ke::RefPtr<R> r(q.take()); V* v = new V; v->AddRef(); v->Release(); return !(r && !q);",
 "amtl/am-storagebuffer.h": "ke::StorageBuffer<long> b; *b.address() = 4; return *b.address() - 4;",
 "amtl/am-string.h": "std::string s = ke::Join(ke::Split(\"a,b\", \",\"), \"-\"); char b[9]; ke::SafeStrcpy(b, sizeof b, \"abc\"); ke::SafeSprintf(b, sizeof b, \"%d\", 4); std::unique_ptr<char[]> f = ke::Sprintf(\"%s\", \"x\"); return !(s == \"a-b\" && ke::StartsWith(s, \"a\") && ke::EndsWith(s, \"b\") && f[0] == 'x' && ke::StrCaseCmp(\"A\", \"a\") == 0 && ke::Lowercase(\"A\") == \"a\");",
 "amtl/am-thread.h": "int n = 0; auto t = ke::NewThread(\"t\", [&](int a) { n = a; }, 4); t->join(); return n - 4;",
 "amtl/am-threadlocal.h": "ke::ThreadLocal<int*> t; int x = 0; t = &x; return !(t.get() == &x && *t == &x && !!t);",
 "amtl/am-time.h": "timespec ts = {1, 5}; struct tm tm = {}; return !(ke::TimespecToDuration(ts).count() == 1000000005 && ke::TimespecToTimePoint<std::chrono::system_clock>(ts).time_since_epoch().count() > 0 && ke::FormatTime(tm, \"x\") == \"x\");",
 "amtl/am-unused.h": "ke::Unused() << 5; return 0;",
 "amtl/am-utility.h": "int x = 5, y[3]; ke::MemsetZero(&x); return !(x == 0 && ARRAY_LENGTH(y) == 3 && IS_ALIGNED(y, 4) && KE_CRITICAL_LIKELY(!x) && ke::cast_to_pointer<int*>::cast(y) == y && ke::cast_to_pointer<int>::cast(0) == nullptr);",
 "amtl/am-vector.h": "std::vector<int> v{1, 2, 3}, w; ke::MoveExtend(&w, &v); ke::RemoveAt(&w, 0); int k = 7; ke::InsertAt(&w, 0, k); ke::InsertAt(&w, 0, 8); ke::EmplaceAt(&w, 1, 9); return !(w.size() == 5 && ke::PopBack(&w) == 3);",
 "amtl/os/am-fsutil-posix.h": "return 0;",
 "amtl/os/am-fsutil.h": "return !(ke::file::IsDirectory(\"/\") && ke::file::PathExists(\"/\") && !ke::file::IsFile(\"/\"));",
 "amtl/os/am-path.h": "return 0;",
 "amtl/os/am-shared-library.h": "char e[64]; ke::RefPtr<ke::SharedLib> l = ke::SharedLib::Open(\"/nonexistent.so\", e, sizeof e); return !!l;",
 "amtl/os/am-system-errors.h": "char e[64]; ke::FormatSystemErrorCode(2, e, sizeof e); return !e[0];",
 "amtl/experimental/am-argparser.h": "return 0;",
}
# what the uses above need at file scope
SCOPE = {
 "amtl/am-enum.h": "enum class E : unsigned { A = 1, B = 2 };\nKE_DEFINE_ENUM_OPERATORS(E)\n",
 "amtl/am-flags.h": "enum class E : unsigned { A = 1, B = 2 };\n",
 "amtl/am-hashmap.h": "struct P { static uint32_t hash(int k) { return k; } static bool matches(int a, int b) { return a == b; } };\n",
 "amtl/am-hashset.h": "struct P { static uint32_t hash(int k) { return k; } static bool matches(int a, int b) { return a == b; } };\n",
 "amtl/am-hashtable.h": "struct Q { typedef int Payload; static uint32_t hash(int k) { return k; } static bool matches(int a, int b) { return a == b; } };\n",
 "amtl/am-inlinelist.h": "struct N : ke::InlineListNode<N> {};\n",
 "amtl/am-refcounting-threadsafe.h": "struct T : ke::RefcountedThreadsafe<T> {};\nstruct V : ke::VirtualRefcountedThreadsafe {};\n",
 "amtl/am-refcounting.h": "struct R : ke::Refcounted<R> {};\nstruct V : ke::VirtualRefcounted {};\n",
 "amtl/am-linking.h": "KE_DLL_EXPORT int f();\nKE_DLL_PRIVATE int g();\n",
 "amtl/am-cxx.h": "KE_LINKONCE(int v) = 3;\n",
}

# the rest of each header: every member of every class template, and what the uses above leave out
HP = "struct P { static uint32_t hash(int k) { return k; } static bool matches(int a, int b) { return a == b; } };\n"
HQ = "struct Q { typedef int Payload; static uint32_t hash(int k) { return k; } static bool matches(int a, int b) { return a == b; } };\n"
REST = {
 "amtl/am-raii.h": ("struct X : ke::StackLinked<X> { X(X** p) : ke::StackLinked<X>(p) {} };\nstruct C { void operator()() {} };\n"
    "template class ke::StackLinked<X>;\ntemplate class ke::SaveAndSet<long>;\n",
    "int n = 0; X* top = nullptr; { X a(&top), b(&top); if (top != &b) return 1; } auto f = [&] { n++; }; { auto g = ke::MakeScopeGuard(f); auto h = ke::MakeScopeGuard([&] { n += 10; }); auto i = ke::MakeScopeGuard(C()); h.cancel(); } int* p = &n; return !(!top && n == 1 && ke::ReturnAndVoid(p) == &n && !p);"),
 "amtl/am-fixedarray.h": ("template class ke::FixedArray<int>;\n", "std::vector<int> v{1, 2}; ke::FixedArray<int> a(v), b(std::move(v)); return !(a == b && a.initialize() && *a.begin() == 1 && a.back() == 2 && !a.empty());"),
 "amtl/am-function.h": ("template class ke::Function<int(int)>;\ntemplate class ke::Function<void()>;\n", "ke::Function<void()> f(nullptr); f = [] {}; f(); return !f.usingInlineStorage();"),
 "amtl/am-hashmap.h": (HP + "template class ke::HashMap<int, int, P>;\n", "ke::HashMap<int, int, P> m; m.init(8); m.clear(); return m.elements();"),
 "amtl/am-hashset.h": (HP + "template class ke::HashSet<int, P>;\n", "ke::HashSet<int, P> m; m.init(8); m.clear(); return m.elements();"),
 "amtl/am-hashtable.h": (HQ + "template class ke::HashTable<Q>;\n", "ke::HashTable<Q> t; t.init(8); auto i = t.findForAdd(3); t.add(i, 3); for (ke::HashTable<Q>::iterator it(&t); !it.empty(); it.next()) it.erase(); return !(!t.elements() && ke::FastHashCharSequence(\"a\", 1) == ke::FastHashCharSequence(\"a\", 1) && ke::HashInt32(3) == ke::HashInt32(3) && ke::HashInt64(4) == ke::HashInt64(4));"),
 "amtl/am-inlinelist.h": ("struct N : ke::InlineListNode<N> {};\ntemplate class ke::InlineList<N>;\ntemplate class ke::InlineListNode<N>;\n", "N a; ke::InlineList<N> l; l.append(&a); for (auto i = l.rbegin(); i != l.rend();) i = l.erase(i); l.append(&a); for (auto i = l.begin(); i != l.end();) i = l.erase(i); l.append(&a); if (!a.isInList()) return 1; a.removeFromParentList(); return l.length();"),
 "amtl/am-maybe.h": ("struct N { int x; };\ntemplate class ke::Maybe<N>;\n", "ke::Maybe<N> m(ke::Some(N{4})), n; n = m; return !(m->x == 4 && (*n).x == 4 && n.get().x == 4 && n.isValid());"),
 "amtl/am-storagebuffer.h": ("template class ke::StorageBuffer<long>;\n", "return 0;"),
 "amtl/am-mutex.h": ("", "ke::Mutex m; { std::lock_guard<ke::Mutex> g(m); } { std::unique_lock<std::mutex> g(m); } return 0;"),
 "amtl/am-priority-queue.h": ("template class ke::PriorityQueue<int>;\ntemplate class ke::PriorityQueue<int, std::greater<int>>;\n", "ke::PriorityQueue<int, std::greater<int>> q; q.add(3); q.add(5); ke::PriorityQueue<int, std::greater<int>> r(std::move(q)); return r.pop() - 5;"),
 "amtl/am-refcounting.h": ("struct R : ke::Refcounted<R> {};\ntemplate class ke::RefPtr<R>;\ntemplate class ke::AlreadyRefed<R>;\ntemplate class ke::Refcounted<R>;\nstruct I : ke::IRefcounted {};\nstruct J : I, ke::Refcounted<J> { KE_IMPL_REFCOUNTING(J) };\n",
    "J* j = new J; j->AddRef(); ke::AlreadyRefed<J> a = ke::AdoptRef(j); ke::RefPtr<I> i(a); ke::RefPtr<J> k(j); i = k; ke::RefPtr<I> l(k); return !(i == j && l.get() == j && *i.byref() == j && !a);"),
 "amtl/am-refcounting-threadsafe.h": ("struct R : ke::RefcountedThreadsafe<R> {};\ntemplate class ke::RefPtr<R>;\ntemplate class ke::AtomicRef<R>;\ntemplate class ke::RefcountedThreadsafe<R>;\nstruct I : ke::IRefcounted {};\nstruct J : I, ke::RefcountedThreadsafe<J> { KE_IMPL_REFCOUNTING_TS(J) };\n", "ke::RefPtr<I> j(new J); return !j;"),
 "amtl/am-flags.h": ("enum class E : unsigned { A = 1, B = 2 };\nenum F { C, D };\ntemplate class ke::Flags<E>;\ntemplate class ke::Flags<F>;\n", "ke::Flags<F> f(D); return !(f.get() == D);"),
 "amtl/am-threadlocal.h": ("template class ke::ThreadLocal<long>;\n", "ke::ThreadLocal<long> t; if (!t.allocate()) return 1; t.set(5); t = 6; return !(t == 6 && t != 5 && !!t);"),
 "amtl/am-thread.h": ("", "int n = 0; auto t = ke::NewThread(\"t\", [&] { n = 4; }); ke::SetThreadName(t.get(), \"u\"); t->join(); ke::SetThreadName(\"v\"); return n - 4;"),
 "amtl/am-vector.h": ("struct M { int x; M(int x) : x(x) {} M(M&&) = default; M& operator=(M&&) = default; };\n", "std::vector<M> v; v.emplace_back(1); v.emplace_back(2); ke::EmplaceAt(&v, 0, 5); ke::EraseIf(&v, [](const M& m) { return m.x == 1; }); std::vector<M> w; ke::MoveExtend(&w, &v); ke::InsertAt(&w, 1, M(8)); ke::RemoveAt(&w, 0); return ke::PopBack(&w).x - 2;"),
 "amtl/am-string.h": ("#include <stdarg.h>\nstatic std::string va(const char* f, ...) { va_list a; va_start(a, f); std::string s = ke::StringPrintfVa(f, a); va_end(a); return s; }\n",
    "char b[9] = \"ab\"; ke::SafeStrcat(b, sizeof b, \"c\"); ke::SafeStrcpyN(b, sizeof b, \"xyz\", 2); unsigned long long n = 3; (void)n; return !(va(\"%d\", 5) == \"5\" && ke::StringPrintf(\"%\" KE_FMT_SIZET, sizeof(char)) == \"1\" && ke::StringPrintf(\"%\" KE_FMT_I64 \"%\" KE_FMT_U64 \"%\" KE_FMT_X64, int64_t(-1), uint64_t(2), uint64_t(10)) == \"-12a\" && ke::Uppercase(\"a\") == \"A\" && ke::StartsWith(\"ab\", \"a\") && ke::Split(std::string(\"a b\"), \" \").size() == 2);"),
 "amtl/am-bits.h": ("", "int x[4]; return !(ke::IsAligned(x, 4) && ke::AlignedBase(x, 4) == x && ke::IsUint32AddSafe(1, 2) && ke::IsUint64AddSafe(1, 2) && ke::IsUintPtrAddSafe(1, 2) && ke::IsUint32MultiplySafe(1, 2) && ke::IsUint64MultiplySafe(1, 2) && ke::IsUintPtrMultiplySafe(1, 2) && ke::IsUintAddSafe(1u, 2u) && ke::IsUintMultiplySafe(1u, 2u) && ke::ClearPointerBits<2>(ke::SetPointerBits(x, 1)) == x && ke::GetPointerBits<2>(x) == 0 && ke::Log2(uint32_t(9)) == 3 && ke::kMallocAlignment >= sizeof(void*) && ke::kMB == 1048576 && ke::kGB == 1073741824);"),
 "amtl/am-float.h": ("", "return !(ke::IsNaN(0.0f / 0.0f) && ke::IsInfinite(1e300 * 1e300) && !ke::IsNaN(1.0f) && !ke::IsInfinite(1.0));"),
 "amtl/am-time.h": ("", "return !(ke::FormatTime(tm(), std::string(\"y\")) == \"y\" && ke::EpochValueToTimePoint<std::chrono::time_point<std::chrono::system_clock, std::chrono::seconds>>(4).time_since_epoch().count() == 4);"),
 "amtl/os/am-shared-library.h": ("", "ke::SharedLib l(\"/nonexistent.so\"), m((void*)0); return l.valid() || m || ke::SharedLib::Open(\"/nonexistent.so\").take();"),
 "amtl/os/am-system-errors.h": ("#include <errno.h>\n", "char e[64]; errno = 2; ke::FormatSystemError(e, sizeof e); return !e[0];"),
 "amtl/os/am-path.h": ("", "char b[9]; return ke::path::Format(b, sizeof b, \"%s\", \"x\") - 1;"),
 "amtl/os/am-fsutil.h": ("", "return ke::file::CreateDirectory(\"/\") || ke::file::CreateDirectory(\"/\", 0700);"),
 "amtl/am-enum.h": ("enum E : unsigned char { A = 1, B = 2 };\nKE_DEFINE_ENUM_OPERATORS(E)\nenum class F : long { A = 1, B = 2 };\nKE_DEFINE_ENUM_COMPARATORS(F, long)\n", "return !(F::B == 2L);"),
 "amtl/am-deque.h": ("struct M { M(int) {} M(M&&) = default; M& operator=(M&&) = default; };\n", "std::deque<M> d; d.emplace_back(1); d.emplace_back(2); ke::PopBack(&d); ke::PopFront(&d); return d.size();"),
 "amtl/experimental/am-argparser.h": ("#include <amtl/experimental/am-argparser.cpp>\nusing namespace ke::args;\n",
    "Parser p(\"prog\"); IntOption n(p, \"-n\", \"--num\", ke::Some(3), \"a number\"); ToggleOption t(p, \"-t\", \"--tog\", ke::Some(false), \"a toggle\"); EnableOption e(p, nullptr, \"--en\", false, \"help\"); StopOption h(p, \"-h\", \"--help\", ke::Some(false), \"stop\"); StringOption s(p, \"file\", \"a file\"); RepeatOption<std::string> r(p, \"-I\", \"--inc\", \"help\"); FILE* f = fopen(\"/dev/null\", \"w\"); char name[] = \"x\"; char* av[] = {name}; p.usage(f, 1, av); fclose(f); p.collect_extra_args(); bool ok = p.parsev(\"-n\", \"5\", \"-t\", \"--en\", \"-I\", \"a\", \"y\", \"z\", nullptr); return !(ok && n.value() == 5 && t.value() && e.value() && s.value() == \"y\" && r.values().size() == 1);"),
}
for h, (scope, main) in REST.items():
    SCOPE[h + "#rest"], USES[h + "#rest"] = scope, main
