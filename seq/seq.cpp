#include "seq.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <map>

namespace seq
{
std::vector<Scenario>& registry()
{
    static std::vector<Scenario> r;
    return r;
}

std::string show(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        char b[8];
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
        else o += static_cast<char>(c);
    }
    return o + "\"";
}

static std::string where(Shard* sh)
{
    if (!sh->fmt) return sh->text;
    char b[1024];
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
    snprintf(b, sizeof b, sh->fmt, sh->num[0], sh->num[1], sh->num[2], sh->num[3], sh->num[4], sh->num[5], sh->num[6], sh->num[7]);
#pragma GCC diagnostic pop
    return b;
}

void Ctx::fail(const char* f, ...)
{
    va_list ap;
    va_start(ap, f);
    char b[3000];
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    snprintf(sh->kind, sizeof sh->kind, "property");
    snprintf(sh->msg, sizeof sh->msg, "%s [at %s]", b, where(sh).c_str());
    sh->done = 3;
    _exit(3);
}

static std::string json(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        char b[8];
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += static_cast<char>(c);
    }
    return o + "\"";
}
static double now()
{
    // not clock_gettime: a harness may replace it
    struct rusage u;
    (void)u;
    struct timespec t;
    syscall(228 /* clock_gettime */, CLOCK_MONOTONIC, &t);
    return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9;
}

static int run(int argc, char** argv)
{
    std::string out, viol = "replays/violation", only;
    bool thorough = false;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "--out") out = argv[++i];
        else if (a == "--viol") viol = argv[++i];
        else if (a == "--only") only = argv[++i];
        else if (a == "--thorough") thorough = true;
    }
    struct Job { size_t sc; int shard; pid_t pid; int efd; uint64_t progress; double since, start; };
    std::vector<size_t> sel;
    for (size_t i = 0; i < registry().size(); ++i)
        if (only.empty() || registry()[i].name.find(only) != std::string::npos) sel.push_back(i);
    std::map<size_t, std::vector<Shard*>> sh;
    std::map<size_t, uint8_t*> bits;
    std::map<size_t, double> wall;
    std::vector<Job> todo, running;
    for (size_t i : sel)
    {
        bits[i] = static_cast<uint8_t*>(mmap(nullptr, BITS / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        for (int k = 0; k < registry()[i].shards; ++k)
        {
            sh[i].push_back(static_cast<Shard*>(mmap(nullptr, sizeof(Shard), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)));
            todo.push_back({i, k, 0, -1, 0, 0, 0});
        }
    }
    size_t next = 0;
    while (next < todo.size() || !running.empty())
    {
        while (next < todo.size() && running.size() < 8)
        {
            Job j = todo[next++];
            char tmpl[] = "/tmp/seqerr.XXXXXX";
            j.efd = mkstemp(tmpl);
            unlink(tmpl);
            fflush(nullptr);
            j.pid = fork();
            if (j.pid == 0)
            {
                dup2(j.efd, 2);
                int null = open("/dev/null", O_WRONLY);
                dup2(null, 1);
                Shard* s = sh[j.sc][static_cast<size_t>(j.shard)];
                Ctx c{s, bits[j.sc], thorough, j.shard, registry()[j.sc].shards};
                std::string what;
                try
                {
                    registry()[j.sc].fn(c);
                    s->done = 1;
                    _exit(0);
                }
                catch (const std::exception& e) { what = e.what(); }
                catch (...) { what = "unknown exception"; }
                snprintf(s->kind, sizeof s->kind, "exception");
                snprintf(s->msg, sizeof s->msg, "the exception '%s' escapes [at %s]", what.c_str(), where(s).c_str());
                s->done = 3;
                _exit(3);
            }
            j.since = j.start = now();
            running.push_back(j);
        }
        usleep(5000);
        for (size_t r = 0; r < running.size();)
        {
            Job& j = running[r];
            Shard* s = sh[j.sc][static_cast<size_t>(j.shard)];
            int st = 0;
            pid_t p = waitpid(j.pid, &st, WNOHANG);
            if (p == 0)
            {
                if (s->progress != j.progress) { j.progress = s->progress; j.since = now(); }
                if (now() - j.since > 40)
                {
                    kill(j.pid, SIGKILL);
                    waitpid(j.pid, &st, 0);
                    snprintf(s->kind, sizeof s->kind, "no-termination");
                    snprintf(s->msg, sizeof s->msg, "no result after 40 s [at %s]", where(s).c_str());
                    s->done = 3;
                }
                else { ++r; continue; }
            }
            else if (s->done == 0 || (s->done == 1 && st != 0))
            {
                char b[2200] = {};
                off_t n = lseek(j.efd, 0, SEEK_END);
                ssize_t got = pread(j.efd, b, sizeof b - 1, 0);
                (void)n; (void)got;
                snprintf(s->kind, sizeof s->kind, "crash");
                snprintf(s->msg, sizeof s->msg, "the process ends (%s %d) [at %s] %s", WIFSIGNALED(st) ? "signal" : "exit status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), where(s).c_str(), b);
                s->done = 3;
            }
            close(j.efd);
            wall[j.sc] += now() - j.start;
            running.erase(running.begin() + static_cast<long>(r));
        }
    }
    std::string o = "{\"scenarios\":[";
    bool first = true;
    int rc = 0;
    for (size_t i : sel)
    {
        uint64_t st = 0, tr = 0, ex = 0, oc = 0;
        Shard* bad = nullptr;
        Shard* some = sh[i][0];
        for (Shard* s : sh[i])
        {
            st += s->states; tr += s->transitions; ex += s->execs;
            if (s->done != 1 && !bad) bad = s;
            if (!some->sample[0]) some = s;
        }
        for (size_t k = 0; k < BITS / 8; ++k) oc += static_cast<uint64_t>(__builtin_popcount(bits[i][k]));
        std::string replay, nm = registry()[i].name;
        for (char& c : nm) if (c == '/') c = '_';
        if (bad)
        {
            rc = 1;
            replay = viol + "_" + nm + ".txt";
            if (FILE* f = fopen(replay.c_str(), "w"))
            {
                fprintf(f, "scenario %s\n%s: %s\n", registry()[i].name.c_str(), bad->kind, bad->msg);
                fclose(f);
            }
        }
        char b[512];
        snprintf(b, sizeof b, ",\"execs\":%llu,\"states\":%llu,\"transitions\":%llu,\"outcomes\":%llu,\"bound\":0,\"bound_done\":0,\"tdev\":0,\"sdev\":0,\"capped\":0,\"maxsteps\":0,\"maxthreads\":1", static_cast<unsigned long long>(ex), static_cast<unsigned long long>(st), static_cast<unsigned long long>(tr), static_cast<unsigned long long>(oc));
        o += std::string(first ? "" : ",") + "{\"name\":" + json(registry()[i].name) + ",\"status\":" + (bad ? "3" : "1") + ",\"kind\":" + json(bad ? bad->kind : "") + ",\"msg\":" + json(bad ? bad->msg : "") + ",\"replay\":" + json(replay) + ",\"note\":" + json(registry()[i].note) + ",\"sample\":" + json(some->sample) + ",\"sample2\":" + json(some->sample2) + b + "}";
        first = false;
        fprintf(stderr, "%-32s execs %9llu states %8llu checks %10llu outcomes %7llu cpu %6.1fs %s\n", registry()[i].name.c_str(), static_cast<unsigned long long>(ex), static_cast<unsigned long long>(st), static_cast<unsigned long long>(tr), static_cast<unsigned long long>(oc), wall[i], bad ? bad->msg : "ok");
    }
    o += "]}";
    if (!out.empty())
    {
        FILE* f = fopen(out.c_str(), "w");
        fputs(o.c_str(), f);
        fclose(f);
    }
    return rc;
}
}

int main(int argc, char** argv)
{
    return seq::run(argc, argv);
}
