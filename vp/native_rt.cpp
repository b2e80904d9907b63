// native definitions of the harness interface: values come from a file (replay) or a seeded
// generator (validation); results go to the file named by VP_OUT
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
static std::vector<double> vals;
static size_t pos = 0;
static bool gen = false;
static unsigned long long s = 88172645463325252ULL;
static FILE *out;
static std::map<std::string, void (*)()> &tab() {
  static std::map<std::string, void (*)()> t;
  return t;
}
void vp_register(const char *n, void (*f)()) { tab()[n] = f; }
static double u01() {
  s ^= s << 13; s ^= s >> 7; s ^= s << 17;
  return (double)(s >> 11) / 9007199254740992.0;
}
static void done(int c) { fprintf(out, "END %d\n", c); fflush(out); fclose(out); _Exit(c); }
static double nxt(int kind, double lo, double hi) {
  double v;
  if (gen) {
    if (kind == 2) v = std::floor(lo + u01() * (hi - lo + 1));
    else {
      double r = u01();
      // favour the corners now and then
      double c = u01();
      if (c < 0.05) r = 0; else if (c < 0.08) r = 0.999999999; else if (c < 0.2) r = r * 1e-3;
      v = lo + r * (hi - lo);
      if (kind == 1 && v >= 1.0) v = 0.9999999;
    }
    if (kind == 2 && v > hi) v = hi;
  } else {
    if (pos >= vals.size()) { fprintf(out, "EXHAUSTED\n"); done(78); }
    v = vals[pos++];
    if (v < lo || v > hi || (kind == 1 && v >= 1.0)) { fprintf(out, "RANGE %g %g %g\n", v, lo, hi); }
  }
  fprintf(out, "IN %.17g\n", v);
  fflush(out);
  return v;
}
extern "C" {
double vp_real(const char *, double lo, double hi) { return nxt(0, lo, hi); }
double vp_rand() { return nxt(1, 0.0, 1.0); }
int vp_int(const char *, int lo, int hi) { return (int)nxt(2, lo, hi); }
int vp_choose(const char *, int lo, int hi) { return lo >= hi ? lo : (int)nxt(2, lo, hi); }
void vp_assume(bool c) { if (!c) { fprintf(out, "ASSUME\n"); done(77); } }
static void fail(const char *l, double a, double b) {
  fprintf(out, "FAIL %s\tgot %.17g expected %.17g\n", l, a, b); fflush(out);
}
void vp_check(bool c, const char *l) { if (!c) fail(l, 0, 1); else fprintf(out, "OK %s\n", l); }
void vp_close(double a, double b, double tol, const char *l) {
  if (!(std::fabs(a - b) <= tol)) fail(l, a, b); else fprintf(out, "OK %s\n", l); }
void vp_le(double a, double b, double tol, const char *l) {
  if (!(a <= b + tol)) fail(l, a, b); else fprintf(out, "OK %s\n", l); }
void vp_reach(const char *l) { fprintf(out, "REACH %s\n", l); fflush(out); }
void vp_observe(const char *n, double v) { fprintf(out, "OBS %s %.17g\n", n, v); fflush(out); }
void vp_stop() { done(0); }
static std::string outname;
static FILE *outf;
const char *vp_out_name() {
  outname = std::string(getenv("VP_OUTFILE") ? getenv("VP_OUTFILE") : "vp_out.0");
  return outname.c_str();
}
FILE *vp_out_open() { vp_out_name(); return outf = fopen(outname.c_str(), "w"); }
static std::vector<std::vector<std::string>> rdout(std::vector<std::string> &tail) {
  std::vector<std::vector<std::string>> l;
  fflush(0);
  FILE *f = fopen(outname.c_str(), "r");
  std::string t;
  int c;
  if (!f) return l;
  while ((c = fgetc(f)) != EOF) {
    if (c == ' ' || c == '\n' || c == '\t') {
      if (!t.empty()) tail.push_back(t);
      t.clear();
      if (c == '\n') l.push_back(tail), tail.clear();
    } else t += (char)c;
  }
  if (!t.empty()) tail.push_back(t);
  fclose(f);
  return l;
}
int vp_out_lines() { std::vector<std::string> t; return rdout(t).size(); }
int vp_out_tail() { std::vector<std::string> t; rdout(t); return t.size(); }
int vp_out_cols(int i) { std::vector<std::string> t; auto l = rdout(t); return i >= 0 && i < (int)l.size() ? (int)l[i].size() : -1; }
static std::string word(int i, int j) {
  std::vector<std::string> t;
  auto l = rdout(t);
  return i >= 0 && i < (int)l.size() && j >= 0 && j < (int)l[i].size() ? l[i][j] : "";
}
double vp_out(int i, int j) {
  std::string w = word(i, j);
  double v; char x;
  return sscanf(w.c_str(), "%lf%c", &v, &x) == 1 ? v : -1e300;
}
void vp_capture_stdout() { vp_out_name(); fflush(stdout); if (!freopen("vp_stdout", "w", stdout)) _Exit(98); }
static std::vector<double> nums() {
  std::vector<double> r;
  fflush(0);
  FILE *f = fopen("vp_stdout", "r");
  std::string t;
  int c;
  if (!f) return r;
  while ((c = fgetc(f)) != EOF) t += (char)c;
  fclose(f);
  for (size_t i = 0; i < t.size();) {
    if (isdigit(t[i])) {
      size_t b = i;
      if (b && t[b - 1] == '-') b--;
      double v = 0;
      int n = 1;
      sscanf(t.c_str() + b, "%lf%n", &v, &n);
      r.push_back(v);
      i = b + (n > 0 ? n : 1);
    } else i++;
  }
  return r;
}
int vp_nums() { return nums().size(); }
double vp_num(int i) { auto r = nums(); return i >= 0 && i < (int)r.size() ? r[i] : -1e300; }
// input files in the current directory
static std::string inname;
static void addf(const std::string &t) {
  FILE *f = fopen(inname.c_str(), "a");
  if (!f) _Exit(97);
  fputs(t.c_str(), f);
  fclose(f);
}
void vp_file(const char *n) { inname = n; FILE *f = fopen(n, "w"); if (!f) _Exit(97); fclose(f); }
void vp_file_text(const char *t) { addf(t); }
double vp_file_num(int w, double v) {
  char b[400];
  if (w == 0) snprintf(b, sizeof b, " %.17g", v);
  else {
    int room = w >= 6 ? w - 1 : w;
    char t[400] = "";
    if (v != 0 && std::fabs(v) < 1e-3 && w >= 9) snprintf(t, sizeof t, "%.*e", room - 7, v);
    else
      for (int p = 12; p >= 0; p--) {
        snprintf(t, sizeof t, "%.*f", p, v);
        if ((int)strlen(t) <= room) break;
      }
    snprintf(b, sizeof b, "%*s", w, t);
  }
  addf(b);
  return strtod(b, 0);
}
int vp_file_int(int w, int v) {
  char b[100];
  if (w) snprintf(b, sizeof b, "%*d", w, v); else snprintf(b, sizeof b, " %d", v);
  addf(b);
  return v;
}
bool vp_out_is(int i, int j, const char *t) { return word(i, j) == t; }
}
static void at_exit() { fprintf(out, "EXIT\n"); fflush(out); }
int main(int argc, char **argv) {
  out = fopen(argv[2], "w");
  if (!strncmp(argv[3], "seed=", 5)) {
    gen = true;
    s ^= strtoull(argv[3] + 5, 0, 10) * 0x9E3779B97F4A7C15ULL;
    for (int i = 0; i < 20; i++) u01();
  } else {
    FILE *f = fopen(argv[3], "r");
    double v;
    while (fscanf(f, "%lf", &v) == 1) vals.push_back(v);
    fclose(f);
  }
  std::atexit(at_exit);
  auto it = tab().find(argv[1]);
  if (it == tab().end()) return 99;
  it->second();
  fprintf(out, "RETURN\n");
  done(0);
}
