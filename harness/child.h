// Runs a history in a pristine forked child (no library function has been called in the parent beforehand unless the caller did) and returns what it observed.
#pragma once
#include "vp.h"
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
#include <atomic>
extern std::atomic<int> g_races;      // data races reported by the race detector in this process
template <class T, class F> static std::vector<T> run_child(size_t n, F body, const char* fn, const char* what) {
    std::vector<T> out(n); int fd[2]; if (pipe(fd)) { perror("pipe"); exit(2); } fflush(stdout); fflush(stderr);
    pid_t pid = fork(); if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
        signal(SIGPROF, SIG_DFL); struct itimerval tv; tv.it_interval.tv_sec = 0; tv.it_interval.tv_usec = 0; tv.it_value.tv_sec = thorough() ? 3000 : 100; tv.it_value.tv_usec = 0; setitimer(ITIMER_PROF, &tv, nullptr);   // CPU limit: a diverging history dies
        close(fd[0]); body(out.data(), fd[1]); const char* p = (const char*) out.data(); size_t left = n * sizeof(T); while (left) { ssize_t w = write(fd[1], p, left); if (w <= 0) _exit(9); p += w; left -= (size_t) w; } _exit(g_races.load() ? 66 : 0);
    }
    close(fd[1]); char* p = (char*) out.data(); size_t left = n * sizeof(T); while (left) { ssize_t q = read(fd[0], p, left); if (q <= 0) break; p += q; left -= (size_t) q; } close(fd[0]);
    int st = 0; waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 2) exit(2);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 66) { chk(false, fn, "no-data-race", "race detector report (see stderr)"); return out; }
    if (!chk(left == 0 && WIFEXITED(st) && WEXITSTATUS(st) == 0, fn, what, "child wait status %d", st)) out.clear();
    return out;
}
