// Fork server: loads and type-checks the standard library once, then compiles and runs each requested program in a child.
// Request line:  ID \t TIMEOUT_S \t SOURCE \t OUTPREFIX \t OPTIONS      (options: noopt llvmdebug disable=a,b ir=FILE nofork-run)
// Reply line:    ID \t STATUS \t PHASE \t SECONDS   (STATUS: exit code, -signal, or "timeout"; PHASE: p parse/typecheck, c compile, r run)
#include "codon/cir/llvm/llvisitor.h"
#include "codon/cir/transform/manager.h"
#include "codon/compiler/compiler.h"
#include "codon/compiler/error.h"
#include "codon/parser/cache.h"
#include "codon/parser/peg/peg.h"
#include "codon/parser/visitors/translate/translate.h"
#include "codon/parser/visitors/typecheck/typecheck.h"
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <poll.h>
#include <sstream>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace codon;
static std::unordered_map<std::string, std::string> early;
static std::unique_ptr<Compiler> comp;
static ast::Stmt *preloaded;
static bool debugMode, py;

static void show(const exc::ParserException &e) {
  for (auto &g : e.getErrors())
    for (auto &m : g)
      printf("COMPILE-ERROR %s:%d:%d len=%d: %s\n", m.getFile().c_str(), m.getLine(), m.getColumn(), m.getLength(), m.getMessage().c_str());
}

static void child(const std::string &src, const std::string &opts, int phase) {
  auto tell = [&](char c) { if (write(phase, &c, 1)) {} };
  auto *cache = comp->getCache();
  bool noopt = false, lldebug = debugMode;
  std::vector<std::string> disabled;
  std::string irfile;
  std::istringstream is(opts);
  for (std::string w; is >> w;) {
    if (w == "noopt") noopt = true;
    if (w == "llvmdebug") lldebug = true;
    if (w == "llvmopt") lldebug = false;
    if (w.rfind("ir=", 0) == 0) irfile = w.substr(3);
    if (w.rfind("disable=", 0) == 0) {
      std::istringstream ds(w.substr(8));
      for (std::string d; std::getline(ds, d, ',');) disabled.push_back(d);
    }
  }
  tell('p');
  std::string path = cache->fs->canonical(src);
  try {
    auto nodeOrErr = ast::parseFile(cache, path);
    if (!nodeOrErr) throw exc::ParserException(nodeOrErr.takeError());
    cache->fs->set_module0(path);
    auto typed = ast::TypecheckVisitor::apply(cache, *nodeOrErr, path, {}, early, false);
    auto *all = cache->N<ast::SuiteStmt>();
    all->addStmt(preloaded);
    all->addStmt(typed);
    ast::TranslateVisitor::apply(cache, all);
  } catch (const exc::ParserException &e) {
    show(e);
    fflush(stdout);
    _exit(1);
  }
  comp->getModule()->setSrcInfo({path, 0, 0, 0});
  tell('c');
  using ir::transform::PassManager;
  PassManager pm(debugMode || noopt ? PassManager::Init::DEBUG : PassManager::Init::RELEASE, disabled, py, false);
  pm.run(comp->getModule());
  if (!irfile.empty()) {
    std::ofstream f(irfile);
    std::stringstream ss;
    ss << *comp->getModule();
    f << ss.str();
  }
  auto *ll = comp->getLLVMVisitor();
  ll->setDebug(lldebug);
  ll->visit(comp->getModule());
  tell('r');
  ll->run({path}, {});
  fflush(stdout);
  exit(0);
}

struct Job { std::string id, phase; int pipe; double start, limit; bool killed = false; };
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

int main(int argc, char **argv) {
  std::string preload;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--debug") debugMode = true;
    else if (a == "--py") py = true;
    else if (a == "--preload" && i + 1 < argc) preload = argv[++i];
  }
  comp = std::make_unique<Compiler>(argv[0], debugMode ? Compiler::Mode::DEBUG : Compiler::Mode::RELEASE, std::vector<std::string>{}, false, py, false);
  early = {{"__debug__", debugMode ? "1" : "0"}, {"__py_numerics__", py ? "1" : "0"}, {"__py_extension__", "0"}, {"__apple__", "0"}};
  auto *cache = comp->getCache();
  try {
    auto n = ast::parseCode(cache, "/preload.codon", preload.empty() ? "pass\n" : preload + "\n", 0);
    if (!n) throw exc::ParserException(n.takeError());
    cache->fs->set_module0("/preload.codon");
    preloaded = ast::TypecheckVisitor::apply(cache, *n, "/preload.codon", {}, early, false);
  } catch (const exc::ParserException &e) {
    show(e);
    return 1;
  }
  printf("READY\n");
  fflush(stdout);
  std::map<pid_t, Job> jobs;
  std::string buf;
  bool eof = false;
  while (!eof || !jobs.empty()) {
    pollfd p[1] = {{0, POLLIN, 0}};
    poll(p, eof ? 0 : 1, jobs.empty() ? 1000 : 5);
    if (!eof && (p[0].revents & (POLLIN | POLLHUP))) {
      char b[65536];
      ssize_t k = read(0, b, sizeof b);
      if (k <= 0) { eof = true; for (auto &j : jobs) kill(-j.first, SIGKILL); }
      else buf.append(b, k);
    }
    for (size_t nl; (nl = buf.find('\n')) != std::string::npos;) {
      std::istringstream line(buf.substr(0, nl));
      buf.erase(0, nl + 1);
      std::string id, lim, src, out, opts;
      std::getline(line, id, '\t'); std::getline(line, lim, '\t'); std::getline(line, src, '\t'); std::getline(line, out, '\t'); std::getline(line, opts, '\t');
      int pp[2];
      if (pipe(pp)) abort();
      pid_t c = fork();
      if (!c) {
        setpgid(0, 0);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        close(pp[0]);
        fcntl(pp[1], F_SETFD, FD_CLOEXEC);
        int in = open("/dev/null", O_RDONLY), o = open((out + ".out").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644), e = open((out + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(in, 0); dup2(o, 1); dup2(e, 2);
        rlimit r{256u << 20, 256u << 20};
        setrlimit(RLIMIT_FSIZE, &r);
        rlimit nc{0, 0};
        setrlimit(RLIMIT_CORE, &nc);
        rlimit as{8ull << 30, 8ull << 30};
        setrlimit(RLIMIT_AS, &as);
        child(src, opts, pp[1]);
        _exit(0);
      }
      setpgid(c, c);
      close(pp[1]);
      fcntl(pp[0], F_SETFL, O_NONBLOCK);
      jobs[c] = Job{id, "", pp[0], now(), atof(lim.c_str())};
    }
    for (auto it = jobs.begin(); it != jobs.end();) {
      auto &j = it->second;
      char b[16];
      for (ssize_t k; (k = read(j.pipe, b, sizeof b)) > 0;) j.phase.append(b, k);
      int st;
      pid_t r = waitpid(it->first, &st, WNOHANG);
      if (r == 0) {
        if (!j.killed && now() - j.start > j.limit) { j.killed = true; kill(-it->first, SIGKILL); }
        ++it;
        continue;
      }
      for (ssize_t k; (k = read(j.pipe, b, sizeof b)) > 0;) j.phase.append(b, k);
      kill(-it->first, SIGKILL);
      close(j.pipe);
      std::string s = j.killed ? "timeout" : WIFEXITED(st) ? std::to_string(WEXITSTATUS(st)) : std::to_string(-WTERMSIG(st));
      printf("%s\t%s\t%c\t%.3f\n", j.id.c_str(), s.c_str(), j.phase.empty() ? '-' : j.phase.back(), now() - j.start);
      fflush(stdout);
      it = jobs.erase(it);
    }
  }
  return 0;
}
