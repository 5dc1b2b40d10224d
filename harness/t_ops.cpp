// Operations for the command-line tools to load (T01).
#include <eni.h>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <unistd.h>
static void trace(const char* what, const char* arg) {
  const char* f = getenv("T_LOG");
  if (!f) return;
  int fd = open(f, O_WRONLY | O_CREAT | O_APPEND, 0600);
  std::string s = std::string(what) + " " + arg + "\n";
  (void)!write(fd, s.data(), s.size());
  close(fd);
}
static uint64_t* number(uint64_t n) { uint64_t* p = (uint64_t*)malloc(sizeof n); *p = n; return p; }
extern "C" {
// answers its argument
char* echo_run(char* a) { trace("echo_run", a); return strdup(a); }
uint64_t* echo_gas(char* a) { trace("echo_gas", a); return number(strlen(a)); }
// the gas is the number in the argument
uint64_t* num_gas(char* a) { trace("num_gas", a); return number(strtoull(a, nullptr, 10)); }
char* num_run(char* a) { trace("num_run", a); return strdup(""); }
// as many characters as the argument says
char* long_run(char* a) { trace("long_run", a); size_t n = strtoull(a, nullptr, 10); char* p = (char*)malloc(n + 1); for (size_t i = 0; i < n; ++i) p[i] = "abc%s\n \\\""[i % 9]; p[n] = 0; return p; }
uint64_t* long_gas(char* a) { trace("long_gas", a); return number(1); }
// no result
char* none_run(char* a) { trace("none_run", a); return nullptr; }
uint64_t* none_gas(char* a) { trace("none_gas", a); return nullptr; }
// one entry point only
char* onlyrun_run(char* a) { trace("onlyrun_run", a); return strdup("R"); }
uint64_t* onlygas_gas(char* a) { trace("onlygas_gas", a); return number(7); }
// names
char* _run(char* a) { trace("_run", a); return strdup("noname"); }
uint64_t* _gas(char* a) { trace("_gas", a); return number(8); }
char* echo_run_run(char* a) { trace("echo_run_run", a); return strdup("twice"); }
}
/// accepts lists; answers its arguments; fails when the first is false
class ListOp : public eni::EniBase {
public:
  ListOp(const std::string& a) : eni::EniBase(a) {}
private:
  json::Array m_Args;
  bool parse(const json::Array& a) override { m_Args = a; return a.size() == 0 || !a[0].isString(); }
  eni::Gas gas() const override { return m_Args.size() * 3; }
  bool run(json::Array& r) override {
    for (size_t i = 0; i < m_Args.size(); ++i) r.push_back(m_Args[i]);
    return m_Args.size() == 0 || !m_Args[0].isBoolean() || m_Args[0].toBoolean();
  }
};
ENI_C_INTERFACE(list, ListOp)
