#include "vp.h"
#include "embc/cstr.h"
#include <strings.h>
#include <ctype.h>
static char * gen(int max) {
    int l = nd_range(0, max); char * s = malloc(l + 1); s[l] = 0; uint32_t kind = nd_range(0, 2);
    for (int i = 0; i < l; ++i) { char c = nd_u8(); if (kind == 0) c = "aAbBzZ[@`{"[c & 7]; if (kind == 2) c = 'a' + (c & 1); s[i] = c ? c : 'x'; }
    return s;
}
static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
VP_HARNESS(b_cstr) {
    char * a = gen(nd_bool() ? 6 : 60), * b;
    if (nd_bool()) { b = strdup(a); int l = strlen(b); for (int i = 0; i < l; ++i) if (nd_bool()) b[i] = isupper((unsigned char) b[i]) ? tolower(b[i]) : up(b[i]); if (l && nd_bool()) b[nd_range(0, l - 1)] = 0; }
    else b = gen(nd_bool() ? 6 : 60);
    int la = strlen(a), lb = strlen(b);
    { int n = nd_range(1, 70); char * t = malloc(n); memset(t, 0x55, n);
      int r = embc_cstr_copy(t, a, n), k = la < n ? la : n - 1;
      ENSURE(r == (la >= n) && !memcmp(t, a, k) && t[k] == 0, "copy, truncated exactly when too long");
      for (int i = k + 1; i < n; ++i) ENSURE(t[i] == 0x55, "nothing behind the terminator written");
      ENSURE(embc_cstr_copy(t, a, -(int) nd_range(0, 5)) == -1, "no room"); free(t); }
    { int i = 0, e; while (a[i] && b[i] && up(a[i]) == up(b[i])) ++i; char x = up(a[i]), y = up(b[i]); e = x == y ? 0 : !x ? -1 : !y ? 1 : x < y ? -1 : 1;
      int r = embc_cstr_casecmp(a, b); ENSURE(x >= 0 && y >= 0 ? r == e : (r != 0) == (e != 0), "case-insensitive order"); }
    { int m = la >= lb && !memcmp(a, b, lb); const char * r = embc_cstr_starts_with(a, b); ENSURE(r == (m ? a + lb : 0), "prefix"); }
    { char * t = strdup(a); ENSURE(embc_cstr_toupper(t) == 0, "upper"); for (int i = 0; i <= la; ++i) ENSURE(t[i] == (char) up(a[i]), "upper-cased"); free(t); }
    { static const char * W[] = {"ON", "1", "ENABLE", "TRUE", "OFF", "0", "DISABLE", "FALSE"}; int w = nd_range(0, 7); char * s = nd_bool() ? strdup(a) : malloc(40);
      if (s[0] != a[0] || strcmp(s, a)) { strcpy(s, W[w]); for (char * p = s; *p; ++p) if (nd_bool()) *p = tolower(*p); if (nd_range(0, 3) == 0) strcat(s, nd_bool() ? " " : "e"); }
      bool v = nd_bool(), v0 = v; int e = -1; for (int i = 0; i < 8; ++i) if (!strcasecmp(s, W[i])) e = i < 4;
      int r = embc_cstr_to_bool(s, &v); ENSURE(e < 0 ? (r != 0 && v == v0) : (r == 0 && v == e), "boolean words"); free(s); }
    { const char * tab[8]; int n = nd_range(0, 6), e = -1, idx = 77; for (int i = 0; i < n; ++i) tab[i] = nd_bool() ? a : nd_bool() ? b : "q"; tab[n] = 0;
      for (int i = n - 1; i >= 0; --i) if (!strcmp(tab[i], a)) e = i;
      int r = embc_cstr_to_index(a, tab, &idx); ENSURE(e < 0 ? (r == 1 && idx == 77) : (r == 0 && idx == e), "table lookup"); }
    free(a); free(b);
}
VP_MAIN(b_cstr)
