// Foreign code of the C12 check: reads scripts, runs each in a process of its own, and makes the calls.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <string>
#include <thread>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" {
struct Answer { uint32_t a; uint64_t b; uint64_t c; };
struct Tag { bool some; uint8_t v; };
struct Slice { const uint16_t *p; size_t n; };
struct Both { uint32_t n; bool flag; };
struct Tracked;
typedef uint32_t (*Fn)(uint32_t);
Answer plain(uint32_t, uint8_t, uint8_t, const uint32_t *, Tag, Tracked *, Fn, Slice);
Answer renamed(uint32_t, uint8_t, uint8_t, const uint32_t *, Tag, Tracked *, Fn, Slice);
// (names that are keywords here)
Answer exported_unsafe(uint32_t, uint8_t, uint8_t, const uint32_t *, Tag, Tracked *, Fn, Slice) __asm__("unsafe");
Answer inner(Slice, Fn, Tracked *, Tag, const uint32_t *, uint8_t, uint8_t, uint32_t);
Answer local(Both, uint8_t, const uint32_t *, Tag, Tracked *, Fn, Slice);
Answer exported_async(uint32_t, uint8_t, uint8_t, const uint32_t *, Tag, Tracked *, Fn, Slice) __asm__("async");
Answer asyncren(uint32_t, uint8_t, uint8_t, const uint32_t *, Tag, Tracked *, Fn, Slice);
Tracked *new_tracked(uint32_t);
void start(const char *, size_t);
void foreign_call(const char *, size_t, const char *, size_t, const char *, size_t, uint32_t);
}

static thread_local uint32_t number;
static uint32_t add(uint32_t x) { return x + number; }

static void make(const std::string &k, const std::string &bad, uint32_t n) {
    const uint32_t s = n * 3 + (k == "plain" ? 0 : k == "renamed" ? 1 : 2);
    static const uint8_t kinds[] = {1, 2, 64};
    static const uint16_t text[8] = {1, 2, 3, 4, 5, 6, 7, 8};
    alignas(16) uint32_t cell[2] = {5000 + s, 5000 + s};
    uint8_t flag = s % 2, kind = kinds[s % 3];
    const uint32_t *r = cell;
    uint8_t tag[2] = {(uint8_t)(s % 4 != 0), (uint8_t)(s % 4 ? s % 2 : 0xee)};
    Tracked *b = new_tracked(70 + s);
    Fn f = add;
    uint32_t outer = number;
    number = 300 + s;
    if (bad == "flag") flag = 2;
    if (bad == "kind") kind = 3;
    if (bad == "ref") r = n % 2 ? nullptr : (const uint32_t *)((const char *)cell + 2);
    if (bad == "tag") { tag[0] = n % 2 ? 2 : 1; tag[1] = 0x42; }
    if (bad == "box") b = nullptr;
    if (bad == "fn") f = nullptr;
    Tag t;
    memcpy(&t, tag, 2);
    Slice sl{text, s % 5};
    Both both;
    both.n = 1000 + s;
    memcpy(&both.flag, &flag, 1);
    Answer a{0, 0, 0};
    try {
        if (k == "plain") a = plain(1000 + s, flag, kind, r, t, b, f, sl);
        else if (k == "renamed") a = renamed(1000 + s, flag, kind, r, t, b, f, sl);
        else if (k == "unsafe") a = exported_unsafe(1000 + s, flag, kind, r, t, b, f, sl);
        else if (k == "inner") a = inner(sl, f, b, t, r, kind, flag, 1000 + s);
        else if (k == "local") a = local(both, kind, r, t, b, f, sl);
        else if (k == "async") a = exported_async(1000 + s, flag, kind, r, t, b, f, sl);
        else if (k == "asyncren") a = asyncren(1000 + s, flag, kind, r, t, b, f, sl);
        else abort();
    } catch (...) {
        printf("[\"unwound\"]\n");
        fflush(stdout);
        _exit(78);
    }
    number = outer;
    if (a.b != ~(uint64_t)a.a || a.c != (uint64_t)a.a + 1)
        printf("[\"garbled\"]\n");
    printf("[\"returned\",%u]\n", a.a);
    fflush(stdout);
}

void foreign_call(const char *k, size_t kn, const char *v, size_t vn, const char *b, size_t bn, uint32_t n) {
    std::string kind(k, kn), via(v, vn), bad(b, bn);
    if (via == "thread") std::thread([&] { make(kind, bad, n); }).join();
    else make(kind, bad, n);
}

int main() {
    struct rlimit no = {0, 0};
    setrlimit(RLIMIT_CORE, &no);
    std::string line;
    while (std::getline(std::cin, line)) {
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            alarm(20);
            if (!freopen("/dev/null", "w", stderr)) _exit(99);
            start(line.data(), line.size());
            _exit(97);
        }
        int st;
        waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) printf("[\"done\"]\n");
        else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT)
            printf("[\"abort\"]\n[\"done\"]\n");
        else printf("[\"crashed\",%d]\n[\"done\"]\n", st);
        fflush(stdout);
    }
}
