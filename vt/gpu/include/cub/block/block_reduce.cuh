// Stand-in for CUB: block-wide sum, valid in thread 0 only.
#pragma once
namespace cub {
template <class T, int N> struct BlockReduce {
    struct TempStorage { T part[N]; };
    TempStorage &s;
    explicit BlockReduce(TempStorage &t) : s(t) {}
    T Sum(T v) {
        s.part[threadIdx.x] = v;
        __syncthreads();
        T r = v;                    // other threads: not the sum
        if (threadIdx.x == 0) {
            r = 0;
            for (int i = 0; i < N; i++) r += s.part[i];
        }
        __syncthreads();
        return r;
    }
    template <int K> T Sum(T (&v)[K]) {
        T r = 0;
        for (int i = 0; i < K; i++) r += v[i];
        return Sum(r);
    }
};
}
