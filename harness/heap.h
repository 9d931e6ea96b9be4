// Replaced operator new/delete: a ledger of what is alive, and control over
// what fresh memory contains and where it lies.  Include in exactly one source.
#ifndef VERIF_HEAP_H
#define VERIF_HEAP_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
namespace heap {
struct Block { uint64_t magic; uint32_t kind; uint32_t size; Block *prev, *next; uint64_t tag; uint64_t pad; };
static_assert(sizeof(Block) % 16 == 0, "alignment");
const uint64_t Live = 0x11FEB10C11FEB10Cull, Dead = 0xDEADB10CDEADB10Cull;
inline Block head;
inline long long count = 0, bytes = 0, total = 0;
inline uint64_t tag = 0;
inline long long wrongDelete = 0;    // foreign or repeated frees, array/scalar mix-ups
inline int fill = -1;                // -1: as malloc gives it; 0..255 byte; 256 pseudo-random doubles
inline bool scatter = false;         // vary addresses
inline uint64_t rnd = 88172645463325252ull;
inline uint64_t nextRnd() { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; return rnd; }
inline void *get(size_t n, uint32_t kind) {
    size_t off = 0;
    if (scatter) off = 16 * (nextRnd() % 9);
    char *raw = (char *)malloc(n + sizeof(Block) + off + 32);
    if (!raw) abort();
    Block *b = (Block *)(raw + off);
    if (!head.next) head.next = head.prev = &head;
    b->magic = Live; b->kind = kind; b->size = (uint32_t)n; b->tag = tag; b->pad = off;
    b->next = head.next; b->prev = &head; head.next->prev = b; head.next = b;
    ++count; ++total; bytes += (long long)n;
    char *p = (char *)(b + 1);
    if (fill >= 0 && fill < 256) memset(p, fill, n);
    else if (fill == 256) for (size_t i = 0; i + 8 <= n; i += 8) {
        double d = (double)(int64_t)(nextRnd() % 2000001 - 1000000) / 977.0;
        memcpy(p + i, &d, 8);
    }
    if (fill == 256 && n % 8) memset(p + n / 8 * 8, 0x5b, n % 8);
    memcpy(p + n, "\x7fGUARD\x7f", 8);
    return p;
}
inline void put(void *p, uint32_t kind) {
    if (!p) return;
    Block *b = (Block *)p - 1;
    if (b->magic != Live || b->kind != kind) { ++wrongDelete; if (b->magic != Live) return; }
    if (memcmp((char *)p + b->size, "\x7fGUARD\x7f", 8)) ++wrongDelete;
    b->magic = Dead;
    b->prev->next = b->next; b->next->prev = b->prev;
    --count; bytes -= (long long)b->size;
    memset(p, 0xDF, b->size);
    free((char *)b - b->pad);
}
} // namespace heap
void *operator new(size_t n) { return heap::get(n, 1); }
void *operator new[](size_t n) { return heap::get(n, 2); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return heap::get(n, 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return heap::get(n, 2); }
void operator delete(void *p) noexcept { heap::put(p, 1); }
void operator delete[](void *p) noexcept { heap::put(p, 2); }
void operator delete(void *p, size_t) noexcept { heap::put(p, 1); }
void operator delete[](void *p, size_t) noexcept { heap::put(p, 2); }
void operator delete(void *p, const std::nothrow_t &) noexcept { heap::put(p, 1); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { heap::put(p, 2); }
#endif
