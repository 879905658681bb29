// Runs CUDA kernels on the host: every thread of a block is a fiber, blocks
// run one after another, threads in a drawn order, __syncthreads() yields.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <tuple>
#include <utility>
#include <vector>
#include <algorithm>
#include <ucontext.h>
using std::sin; using std::cos; using std::abs; using std::min; using std::max;
struct vt_dim { unsigned x, y, z; };
static vt_dim threadIdx, blockIdx, blockDim, gridDim;
#define __global__ __attribute__((visibility("default")))
#define __device__
#define __host__
#define __forceinline__ inline
#define __shared__ static
template <class T, class U> static T atomicAdd(T *p, U v) { T o = *p; *p += (T)v; return o; }
template <class T, class U> static T atomicMax(T *p, U v) { T o = *p; if ((T)v > o) *p = (T)v; return o; }

namespace vt {
struct Fiber { ucontext_t ctx; char *stack; bool done; unsigned tid; };
static ucontext_t sched;
static Fiber *cur = nullptr;
static void (*body)(void *) = nullptr;
static void *bodyarg = nullptr;
static void entry() { body(bodyarg); cur->done = true; swapcontext(&cur->ctx, &sched); }
static const size_t STACK = 64 * 1024;
static std::vector<Fiber *> pool;
static uint64_t rnd = 88172645463325252ull;
static unsigned draw(unsigned n) { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; return (unsigned)(rnd % n); }
static void shuffle(std::vector<unsigned> &o) { for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[draw((unsigned)i)]); }

static void run(unsigned grid, unsigned block, void (*f)(void *), void *a) {
    body = f; bodyarg = a;
    gridDim = {grid, 1, 1}; blockDim = {block, 1, 1};
    while (pool.size() < block) {
        Fiber *n = new Fiber; n->stack = (char *)malloc(STACK); pool.push_back(n);
    }
    std::vector<unsigned> bo(grid), to(block);
    for (unsigned i = 0; i < grid; i++) bo[i] = i;
    for (unsigned i = 0; i < block; i++) to[i] = i;
    shuffle(bo);
    for (unsigned b : bo) {
        for (unsigned i = 0; i < block; i++) {
            Fiber *q = pool[i];
            q->done = false; q->tid = i;
            getcontext(&q->ctx);
            q->ctx.uc_stack.ss_sp = q->stack; q->ctx.uc_stack.ss_size = STACK;
            q->ctx.uc_link = &sched;
            makecontext(&q->ctx, entry, 0);
        }
        unsigned left = block;
        while (left) {
            shuffle(to);
            for (unsigned i : to) {
                Fiber *q = pool[i];
                if (q->done) continue;
                cur = q;
                blockIdx = {b, 0, 0}; threadIdx = {i, 0, 0};
                swapcontext(&sched, &q->ctx);
                if (q->done) left--;
            }
        }
    }
    cur = nullptr;
}
template <class F, class Tup, size_t... I> static void apply(F f, Tup &t, std::index_sequence<I...>) { f(std::get<I>(t)...); }
template <class Tup, size_t... I> static void fill(Tup &t, void **a, std::index_sequence<I...>) {
    int z[] = {0, (memcpy((void *)&std::get<I>(t), a[I], sizeof(std::get<I>(t))), 0)...};
    (void)z;
}
template <class... A> static void launch(void (*f)(A...), unsigned grid, unsigned block, void **args) {
    // as cuLaunchKernel: each parameter is read from the address given
    typedef std::tuple<typename std::remove_const<A>::type...> Tup;
    struct Ctx { void (*f)(A...); Tup t; } c{f, Tup()};
    fill(c.t, args, std::index_sequence_for<A...>());
    run(grid, block, [](void *p) { Ctx *q = (Ctx *)p; apply(q->f, q->t, std::index_sequence_for<A...>()); }, &c);
}
}
static void __syncthreads() {
    vt::Fiber *me = vt::cur;
    unsigned b = blockIdx.x;
    swapcontext(&me->ctx, &vt::sched);
    vt::cur = me; threadIdx = {me->tid, 0, 0}; blockIdx = {b, 0, 0};
}
