// Native replay run time: inputs come from a model file, checks are evaluated concretely.
// usage: prog --entry=NAME --tolscale=1 MODELFILE...   (each model is run in its own process)
#include <malloc.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <map>
#include <string>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <dlfcn.h>
static std::map<std::string, std::string> kv;
static FILE *rep;
static int failures = 0;
static bool inPrelude = false;
extern "C" {
static const char *get(const char *n) { auto it = kv.find(n); return it == kv.end() ? nullptr : it->second.c_str(); }
float symi_f32(const char *n, float lo, float hi) { auto s = get(n); return s ? (float)strtod(s, nullptr) : (lo + hi) / 2 + (hi - lo) * 0.137f; }
double symi_f64(const char *n, double lo, double hi) { auto s = get(n); return s ? strtod(s, nullptr) : (lo + hi) / 2 + (hi - lo) * 0.137; }
uint32_t symi_u32(const char *n, uint32_t lo, uint32_t) { auto s = get(n); return s ? (uint32_t)strtoull(s, nullptr, 10) : lo; }
uint64_t symi_u64(const char *n, uint64_t lo, uint64_t) { auto s = get(n); return s ? strtoull(s, nullptr, 10) : lo; }
void symi_unit_quat(const char *n, float *q) {
  static const char *cc[4] = {".w", ".x", ".y", ".z"};
  double d[4], s = 0;
  for (int i = 0; i < 4; i++) { auto v = get((std::string(n) + cc[i]).c_str()); d[i] = v ? strtod(v, nullptr) : (i ? 0.1 * i : 0.9); s += d[i] * d[i]; }
  s = std::sqrt(s); if (s == 0) { d[0] = 1; s = 1; }
  for (int i = 0; i < 4; i++) q[i] = (float)(d[i] / s);
}
uint32_t symi_choice(const char *n, uint32_t) { if (inPrelude) return 0; auto s = get(n); return s ? (uint32_t)strtoull(s, nullptr, 10) : 0; }
void symi_assume(bool c) { if (!c) { fprintf(rep, "ASSUME-FAIL\n"); fflush(rep); _exit(failures ? 1 : 3); } }
void symi_check(bool c, const char *l) { if (!c) { fprintf(rep, "FAIL %s\n", l); fflush(rep); failures++; } }
void symi_check_eq(float a, float b, float tol, const char *l) { if (!(std::fabs((double)a - b) <= tol * (1 + std::fabs((double)b))) && !(a == b)) { fprintf(rep, "FAIL %s got=%.9g expected=%.9g\n", l, a, b); fflush(rep); failures++; } }
void symi_check_eq64(double a, double b, double tol, const char *l) { if (!(std::fabs(a - b) <= tol * (1 + std::fabs(b))) && !(a == b)) { fprintf(rep, "FAIL %s got=%.17g expected=%.17g\n", l, a, b); fflush(rep); failures++; } }
void symi_reach(const char *) {}
void symi_note(const char *t) { fprintf(rep, "NOTE %s\n", t); }
float symi_peek(float x) { return x; }
int symi_native(void) { return 1; }
}
int main(int argc, char **argv) {
  mallopt(M_PERTURB, 0x3A);       // fresh memory is never zero by accident
  std::string entry; int timeout = 20; bool verbose = false; int rc = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a.rfind("--entry=", 0) == 0) { entry = a.substr(8); continue; }
    if (a.rfind("--timeout=", 0) == 0) { timeout = atoi(a.c_str() + 10); continue; }
    if (a == "-v") { verbose = true; continue; }
    void (*e)() = (void (*)())dlsym(RTLD_DEFAULT, entry.c_str());
    if (!e) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
    printf("RUN %s\n", a.c_str()); fflush(stdout);
    pid_t p = fork();
    if (!p) {
      FILE *f = fopen(a.c_str(), "r"); if (!f) _exit(2);
      char line[4096];
      while (fgets(line, sizeof line, f)) { line[strcspn(line, "\n")] = 0; char *q = strchr(line, '='); if (!q) continue; *q = 0; kv[line] = q + 1; }
      fclose(f);
      int o = dup(1); rep = fdopen(o, "w");
      if (!verbose) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); }
      alarm(timeout);
      if (auto pre = (void (*)())dlsym(RTLD_DEFAULT, "symi_prelude")) { inPrelude = true; pre(); inPrelude = false; }
      e();
      fflush(rep);
      _exit(failures ? 1 : 0);
    }
    int st; waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) { printf("CRASH signal=%d\n", WTERMSIG(st)); rc = 1; }
    else { printf("EXIT %d\n", WEXITSTATUS(st)); if (WEXITSTATUS(st) && WEXITSTATUS(st) != 3) rc = 1; }
    fflush(stdout);
  }
  return rc;
}
