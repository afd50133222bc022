// Running the repository's own programs.
#pragma once
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include "pbt.hpp"

inline std::string scratchFile(char const* name) {
    static std::string dir;
    static pid_t owner = 0;
    if (owner != getpid()) { // workers are forked: each has its own files
        owner = getpid();
        dir = pbt::cat(".", "/app-", owner);
    }
    return pbt::cat(dir, "-", name);
}
inline std::string slurp(std::string const& f) {
    std::ifstream in(f.c_str());
    std::ostringstream os;
    os << in.rdbuf();
    return os.str();
}
inline void spit(std::string const& f, std::string const& text) {
    std::ofstream out(f.c_str());
    out << text;
}
struct Result { int rc; std::string out, err; };
/** Runs one of the programs with files of its own. */
inline Result run(char const* app, std::vector<std::string> args, std::string const& in, int threads) {
    char const* aux = std::getenv("PBT_AUX");
    std::string prog = pbt::cat(aux ? aux : ".", "/", app);
    std::string fin = scratchFile("in"), fout = scratchFile("out"), ferr = scratchFile("err");
    spit(fin, in);
    std::vector<char*> av;
    av.push_back(const_cast<char*>(prog.c_str()));
    for (auto& a : args) av.push_back(const_cast<char*>(a.c_str()));
    av.push_back(0);
    std::vector<std::string> env;
    for (char** e = environ; *e; ++e) if (strncmp(*e, "OMP_NUM_THREADS=", 16)) env.push_back(*e);
    env.push_back(pbt::cat("OMP_NUM_THREADS=", threads));
    std::vector<char*> ev;
    for (auto& e : env) ev.push_back(const_cast<char*>(e.c_str()));
    ev.push_back(0);
    pid_t self = getpid(), pid = fork();
    if (pid == 0) { // ends with its parent, cannot fill the disk or run for ever
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (getppid() != self) _exit(4);
        struct rlimit size = {rlim_t(1) << 26, rlim_t(1) << 26}, cpu = {600, 600};
        setrlimit(RLIMIT_FSIZE, &size);
        setrlimit(RLIMIT_CPU, &cpu);
        int const to[] = {open(fin.c_str(), O_RDONLY), open(fout.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), open(ferr.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600)};
        for (int i = 0; i < 3; ++i) if (to[i] < 0 || dup2(to[i], i) < 0) _exit(126);
        execve(prog.c_str(), &av[0], &ev[0]);
        _exit(127);
    }
    if (pid < 0) { std::cerr << "cannot start " << prog << "\n"; _exit(3); }
    int st = 0;
    for (int ms = 0;; ++ms) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) break;
        if (ms > 600000) { kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
        usleep(ms < 20 ? 200 : 1000);
    }
    Result r;
    r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    r.out = slurp(fout);
    r.err = slurp(ferr);
    return r;
}
/** All numbers after "#solution = ". */
inline std::vector<std::string> reported(std::string const& err) {
    std::vector<std::string> r;
    size_t at = 0;
    while ((at = err.find("#solution = ", at)) != std::string::npos) {
        at += 12;
        size_t e = at;
        while (e < err.size() && !isspace((unsigned char)err[e])) ++e;
        r.push_back(err.substr(at, e - at));
    }
    return r;
}
