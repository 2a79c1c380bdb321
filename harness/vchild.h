// Drivers whose scripts may end the program: every script runs in a child process; how the child ended is the last event.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>

#include "vh.h"

namespace vh {

struct ChildDriver : Driver {
    std::vector<std::pair<std::string, Line>> todo;

    virtual void run(const std::string& op, Line& l) = 0;

    void begin() override { todo.clear(); }
    void cmd(const std::string& op, Line& l) override { todo.emplace_back(op, l); }
    void end() override {
        fflush(g_out);
        int err = memfd_create("err", 0);
        pid_t pid = fork();
        if (pid < 0)
            bad_script("fork");
        if (pid == 0) {
            dup2(err, 2);
            alarm(20);
            for (auto& c : todo)
                run(c.first, c.second);
            fflush(g_out);
            _exit(0);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0) {
        }
        off_t said = lseek(err, 0, SEEK_END);
        std::string text;
        if (said > 0) {
            text.resize((size_t)std::min<off_t>(said, 300));
            if (pread(err, &text[0], text.size(), 0) < 0)
                text.clear();
            if (!WIFEXITED(st) || WEXITSTATUS(st)) {
                if (write(2, text.data(), text.size()) < 0 || write(2, "\n", 1) < 0)
                    said = 0;
            }
        }
        close(err);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3)
            bad_script(text);
        fseek(g_out, 0, SEEK_END);
        Ev e("end");
        e.str("how", WIFEXITED(st) ? "exit" : WTERMSIG(st) == SIGABRT ? "abort" : "signal");
        e.i("code", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st)).b("said", said > 0);
    }
};
} // namespace vh
