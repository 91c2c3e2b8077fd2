// Runs cases [from,to) of one monitor and reports line by line (see check.py).
#include "common.hpp"
#include <csignal>
#include <cstdlib>
#include <exception>
#include <sys/wait.h>
#include <unistd.h>

std::map<std::string, CaseFn> &registry() { static std::map<std::string, CaseFn> r; return r; }

std::string inChild(const std::function<std::string()> &f)
{
#if defined(__SANITIZE_ADDRESS__)
    return f();          // leaks are looked for at the end of the process
#else
    int fd[2];
    if (pipe(fd)) throw std::runtime_error("pipe");
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { fprintf(stderr, "fork failed\n"); _exit(3); }
    if (pid == 0)
    {
        close(fd[0]);
        std::string s;
        int code = 0;
        try { s = f(); }
        catch (const std::exception &e) { s = e.what(); code = 5; }
        catch (...) { s = "non standard exception"; code = 5; }
        for (size_t k = 0; k < s.size();) { ssize_t n = write(fd[1], s.data() + k, s.size() - k); if (n <= 0) _exit(6); k += (size_t)n; }
        _exit(code);
    }
    close(fd[1]);
    std::string s;
    char buf[65536];
    for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;) s.append(buf, (size_t)n);
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 5) throw std::runtime_error(s);
    if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); }
    if (!WIFEXITED(st) || WEXITSTATUS(st)) _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 7);
    return s;
#endif
}

static std::string esc(const std::string &s)
{
    std::string o;
    for (char ch : s) { if (ch == '\n' || ch == '\t' || ch == '\r') o += ' '; else o += ch; }
    return o;
}

int main(int argc, char **argv)
{
    std::string name, tier = "quick", out;
    uint64_t seed = 1, from = 0, to = 1;
    for (int k = 1; k + 1 < argc; k += 2)
    {
        std::string a = argv[k], v = argv[k + 1];
        if (a == "--case") name = v;
        else if (a == "--seed") seed = strtoull(v.c_str(), nullptr, 10);
        else if (a == "--from") from = strtoull(v.c_str(), nullptr, 10);
        else if (a == "--to") to = strtoull(v.c_str(), nullptr, 10);
        else if (a == "--tier") tier = v;
        else if (a == "--out") out = v;
    }
    FILE *f = out.empty() ? stdout : fopen(out.c_str(), "a");
    auto it = registry().find(name);
    if (it == registry().end() || !f) { fprintf(stderr, "no case '%s'\n", name.c_str()); return 3; }
    std::map<std::string, long> counters;
    int samples = 0;
    for (uint64_t k = from; k < to; k++)
    {
        fprintf(f, "B\t%llu\n", (unsigned long long)k);
        fflush(f);
        Ctx c(seed, k, tier == "thorough", name);
        try { it->second(c); }
        catch (const std::exception &e) { c.bad("unexpected-exception", MSG("exception escaped to the caller: " << e.what())); }
        catch (...) { c.bad("unexpected-exception", "non standard exception escaped to the caller"); }
        for (auto &v : c.violations) fprintf(f, "V\t%llu\t%s\t%s\n", (unsigned long long)k, esc(v.first).c_str(), esc(v.second).c_str());
        if (c.nontrivial && samples < 2 && !c.sample.empty()) { fprintf(f, "S\t%llu\t%s\n", (unsigned long long)k, esc(c.sample).c_str()); samples++; }
        for (auto &q : c.counters) counters[q.first] += q.second;
        fprintf(f, "E\t%llu\t%016llx\t%d\n", (unsigned long long)k, (unsigned long long)c.hash, c.nontrivial ? 1 : 0);
        fflush(f);
    }
    for (auto &q : counters) fprintf(f, "C\t%s\t%ld\n", q.first.c_str(), q.second);
    fprintf(f, "D\n");
    fflush(f);
    return 0;
}
