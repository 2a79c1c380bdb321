------------------------------- MODULE ArgTokens -------------------------------
\* Written by tools/mkargtokens.py: the declarations and tokens of ArgMC.
EXTENDS Integers, Sequences
Decl == <<
  <<
    [k |-> "stop", s |-> <<104>>, l |-> <<104, 101, 108, 112>>, n |-> <<>>, def |-> <<<<48>>>>],
    [k |-> "str", s |-> <<115>>, l |-> <<115, 116, 114>>, n |-> <<>>, def |-> <<>>],
    [k |-> "int", s |-> <<105>>, l |-> <<105, 110, 116>>, n |-> <<>>, def |-> <<<<55>>>>],
    [k |-> "bool", s |-> <<98>>, l |-> <<98, 111, 111, 108>>, n |-> <<>>, def |-> <<>>],
    [k |-> "en", s |-> <<101>>, l |-> <<101, 110>>, n |-> <<>>, def |-> <<<<48>>>>],
    [k |-> "tog", s |-> <<116>>, l |-> <<116, 111, 103>>, n |-> <<>>, def |-> <<<<49>>>>],
    [k |-> "stop", s |-> <<118>>, l |-> <<>>, n |-> <<>>, def |-> <<<<48>>>>],
    [k |-> "rint", s |-> <<114>>, l |-> <<114, 101, 112>>, n |-> <<>>, def |-> <<>>],
    [k |-> "str", s |-> <<>>, l |-> <<>>, n |-> <<102, 105, 108, 101>>, def |-> <<>>]>>,
  <<
    [k |-> "stop", s |-> <<104>>, l |-> <<104, 101, 108, 112>>, n |-> <<>>, def |-> <<<<48>>>>],
    [k |-> "rstr", s |-> <<73>>, l |-> <<105, 110, 99>>, n |-> <<>>, def |-> <<>>],
    [k |-> "en", s |-> <<>>, l |-> <<110, 111, 45, 120>>, n |-> <<>>, def |-> <<<<49>>>>],
    [k |-> "en", s |-> <<120>>, l |-> <<120>>, n |-> <<>>, def |-> <<<<49>>>>],
    [k |-> "bool", s |-> <<>>, l |-> <<98>>, n |-> <<>>, def |-> <<<<49>>>>],
    [k |-> "str", s |-> <<115, 116>>, l |-> <<>>, n |-> <<>>, def |-> <<<<100, 100>>>>],
    [k |-> "str", s |-> <<115>>, l |-> <<>>, n |-> <<>>, def |-> <<>>],
    [k |-> "int", s |-> <<>>, l |-> <<>>, n |-> <<110, 117, 109>>, def |-> <<>>],
    [k |-> "bool", s |-> <<>>, l |-> <<>>, n |-> <<102, 108, 97, 103>>, def |-> <<>>]>>,
  <<
    [k |-> "stop", s |-> <<104>>, l |-> <<104, 101, 108, 112>>, n |-> <<>>, def |-> <<<<48>>>>],
    [k |-> "rbool", s |-> <<114>>, l |-> <<114, 114>>, n |-> <<>>, def |-> <<>>],
    [k |-> "bool", s |-> <<98>>, l |-> <<>>, n |-> <<>>, def |-> <<>>],
    [k |-> "stop", s |-> <<>>, l |-> <<118, 101, 114>>, n |-> <<>>, def |-> <<<<49>>>>],
    [k |-> "int", s |-> <<79>>, l |-> <<>>, n |-> <<>>, def |-> <<>>]>>>>
Tokens == <<
  <<>>,
  <<45>>,
  <<45, 45>>,
  <<47>>,
  <<97>>,
  <<53>>,
  <<45, 53>>,
  <<116, 114, 117, 101>>,
  <<70, 65, 76, 83, 69>>,
  <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>,
  <<45, 104>>,
  <<45, 115>>,
  <<45, 115, 61, 120>>,
  <<45, 115, 120>>,
  <<45, 115, 58>>,
  <<45, 115, 61>>,
  <<47, 115>>,
  <<45, 45, 115, 116, 114, 61, 121>>,
  <<45, 105>>,
  <<45, 105, 61, 49, 50>>,
  <<45, 105, 53>>,
  <<45, 98>>,
  <<45, 98, 61, 110, 111>>,
  <<45, 45, 98, 111, 111, 108, 61, 102, 97, 108, 115, 101>>,
  <<45, 45, 98>>,
  <<45, 101>>,
  <<45, 45, 101, 110>>,
  <<45, 45, 110, 111, 45, 101, 110>>,
  <<45, 45, 110, 111, 45>>,
  <<45, 45, 110, 111, 45, 120>>,
  <<45, 45, 110, 111, 45, 110, 111, 45, 120>>,
  <<45, 45, 110, 111, 45, 122, 122>>,
  <<45, 45, 110, 111, 45, 115, 116, 114>>,
  <<45, 45, 110, 111, 45, 101, 110, 61, 49>>,
  <<45, 116>>,
  <<45, 116, 61, 49>>,
  <<45, 118>>,
  <<45, 45, 118, 101, 114>>,
  <<45, 114>>,
  <<45, 114, 55>>,
  <<45, 114, 61, 45, 50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>,
  <<45, 45, 114, 101, 112, 61, 48, 48, 55>>,
  <<45, 73>>,
  <<45, 45, 105, 110, 99, 61, 97, 61, 98>>,
  <<45, 115, 116>>,
  <<45, 79, 50>>,
  <<47, 79, 58, 51>>,
  <<45, 113>>,
  <<45, 45, 122, 122>>,
  <<55, 120>>>>
OptLike == {2, 3, 4, 7, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49}
===============================================================================
