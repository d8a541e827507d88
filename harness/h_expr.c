// C06: precedence, associativity and parentheses, over all well typed expression trees.
#include "nj.h"
typedef struct X X; struct X { int k, v; X *l, *r; };   // k: operator index or leaf
enum { ADD, SUB, MUL, DIV, MOD, LT, GT, LE, GE, EQ, NE, AND, OR, NEG, POS, NOT, ILEAF, BLEAF, ASG };
static const char *const TXT[] = {"+","-","*","/","%","<",">","<=",">=","==","!=","and","or","-","+","not"};
static X xs[64]; static int nx, nil, nbl; static long long iv[8]; static bool bv[8];
static X *xnew(int k, X *l, X *r) { X *x = &xs[nx++]; x->k = k; x->l = l; x->r = r; return x; }
static X *geni(int fuel); static X *genb(int fuel);
static X *geni(int fuel) { // exactly `fuel` operators
  if (!fuel) { X *x = xnew(ILEAF, 0, 0); x->v = nil++; return x; }
  int k = sym_choose("iop", 6 + (fuel > 1)); if (k == 5) return xnew(NEG, geni(fuel - 1), 0); if (k == 6) { X *x = xnew(ASG, geni(fuel - 1), 0); return x; }
  int a = sym_choose("split", fuel); X *l = geni(a); return xnew(k, l, geni(fuel - 1 - a));
}
static X *genb(int fuel) {
  if (!fuel) { X *x = xnew(BLEAF, 0, 0); x->v = nbl++; return x; }
  int k = sym_choose("bop", 8); int a;
  if (k == 7) return xnew(NOT, genb(fuel - 1), 0);
  a = sym_choose("split", fuel);
  if (k < 4) { static const int R[] = {LT, GE, EQ, NE}; X *l = geni(a); return xnew(R[k], l, geni(fuel - 1 - a)); }
  static const int R[] = {AND, OR, EQ}; X *l = genb(a); return xnew(R[k - 4], l, genb(fuel - 1 - a));
}
static int prec(X *x) { switch (x->k) { case ASG: return 0; case OR: return 2; case AND: return 3; case LT: case GT: case LE: case GE: case EQ: case NE: return 4; case ADD: case SUB: return 5; case MUL: case DIV: case MOD: return 6; case ILEAF: case BLEAF: return 20; default: return 10; } }
static int style;
static void txt(X *x, int min) { // parenthesised when its precedence is below min
  bool par = prec(x) < min || (style == 1 && prec(x) < 20); if (par) sb("(");
  switch (x->k) {
    case ILEAF: sbc("ABCDEFGH"[x->v]); break;
    case BLEAF: sbc("PQRSTUVW"[x->v]); break;
    case ASG: sb("t="); txt(x->l, 0); break;
    case NEG: sb("-"); txt(x->l, 10); break;
    case NOT: sb("not "); txt(x->l, 10); break;
    default: { int p = prec(x); txt(x->l, p); if (style == 2 || x->k == AND || x->k == OR) sb(" "); sb(TXT[x->k]); if (style == 2 || x->k == AND || x->k == OR) sb(" "); txt(x->r, p + 1); }
  }
  if (par) sb(")");
}
static bool fail;
static long long ev(X *x) {
  if (fail) return 0;
  switch (x->k) {
    case ILEAF: return iv[x->v]; case BLEAF: return bv[x->v]; case ASG: return ev(x->l);
    case NEG: return -ev(x->l); case NOT: return !ev(x->l);
    case AND: return ev(x->l) ? ev(x->r) : 0; case OR: return ev(x->l) ? 1 : ev(x->r);
    default: break; }
  long long a = ev(x->l); if (fail) return 0; long long b = ev(x->r); if (fail) return 0;
  switch (x->k) {
    case ADD: return a + b; case SUB: return a - b; case MUL: return a * b;
    case DIV: case MOD: if (b == 0) { fail = true; return 0; } return x->k == DIV ? a / b : a % b;
    case LT: return a < b; case GT: return a > b; case LE: return a <= b; case GE: return a >= b; case EQ: return a == b; case NE: return a != b; }
  return 0;
}
void t_precedence(void) {
  int fuel = (int)sym_param("ops", 2); bool isb = sym_param("bool", 0);
  static const long long fixed[4] = {7, -5, 3, 2};
  for (int i = 0; i < 4; i++) { iv[i] = fuel == 1 || (fuel == 2 && i == 1) ? (long long)sym_u64("i", 3) - 3 : fixed[i]; bv[i] = sym_bool("b"); }
  StaticMapSlot in[] = { NJ_INT("A", iv[0]), NJ_INT("B", iv[1]), NJ_INT("C", iv[2]), NJ_INT("D", iv[3]), NJ_BOOL("P", bv[0]), NJ_BOOL("Q", bv[1]), NJ_BOOL("R", bv[2]), NJ_BOOL("S", bv[3]), NJ_END };
  if (!nj_boot(in)) sym_check(0, "boot");
  style = fuel == 3 ? (int)sym_param("style", 0) : sym_choose("style", 3);
  nx = nil = nbl = 0; X *x = isb ? genb(fuel) : geni(fuel);
  sb0(); sb("x="); txt(x, 0); sb(";out(x);"); fail = false; bool ok = sb_run(); long long v = ev(x);
  sym_check(ok == !fail, "the expression aborts exactly when its tree does");
  if (ok && isb) sym_check(nj_nout == 1 && nj_isbool(0, v), "boolean expression grouped by precedence");
  if (ok && !isb) sym_check(nj_nout == 1 && nj_isint(0, v), "integer expression grouped by precedence");
  if (ok) sym_cover("value"); nj_logout(); nj_end();
}
