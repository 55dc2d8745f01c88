#pragma once
#include "texts.h"
// one case each, on any adapter (see values.cpp)
void escapeCase(Ctx &c, const Api &A, const Str &bytes);
void decodeCase(Ctx &c, const Api &A, const Str &body, bool all);
const unsigned F_STR = 0xFF, F_NUM = 0xF00, F_ALL = 0xFFF;
void setterCase(Ctx &c, const Api &A, const Str &text, unsigned forms, bool allTargets);
void literalCase(Ctx &c, const Api &A, const Str &literal);
void intRange(Ctx &c, const Api &A, long long lo, long long hi, int kinds, bool deep);
void lookupCase(Ctx &c, const Api &A, const std::vector<Str> &keys, const std::vector<Str> &queries, int how, bool del);
void deepCase(Ctx &c, const Api &A, size_t n, int kind);
void wideCase(Ctx &c, const Api &A, size_t n, int kind);
void longCase(Ctx &c, const Api &A, size_t n, int kind);
