// A stand-in for MPI point-to-point messages inside one process: a send appends to a queue, a receive takes from it.
#pragma once
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <string>
#include <tuple>
typedef int MPI_Comm;
typedef int MPI_Datatype;
struct MPI_Status { int src, tag; };
#define MPI_UNSIGNED 4
#define MPI_BYTE 1
#define MPI_INT 4
#define MPI_STATUS_IGNORE ((MPI_Status*) nullptr)
#define MPI_COMM_WORLD 0
struct FakeMpi {
    int rank = 0, size = 1;
    std::map<std::tuple<int, int, int>, std::deque<std::string>> q;
    static FakeMpi& get()
    {
        static FakeMpi m;
        return m;
    }
    std::deque<std::string>& chan(int src, int dst, int tag) { return q[std::make_tuple(src, dst, tag)]; }
};
inline int MPI_Comm_size(MPI_Comm, int* s) { *s = FakeMpi::get().size; return 0; }
inline int MPI_Comm_rank(MPI_Comm, int* r) { *r = FakeMpi::get().rank; return 0; }
inline int MPI_Send(const void* p, int n, MPI_Datatype t, int dst, int tag, MPI_Comm)
{
    FakeMpi& m = FakeMpi::get();
    m.chan(m.rank, dst, tag).push_back(n ? std::string((const char*) p, (size_t) n * t) : std::string());
    return 0;
}
inline std::string& fakempi_head(int src, int tag)
{
    FakeMpi& m = FakeMpi::get();
    auto& c = m.chan(src, m.rank, tag);
    if (c.empty())
        _Exit(97); // a receive that would wait for ever
    return c.front();
}
inline int MPI_Probe(int src, int tag, MPI_Comm, MPI_Status* st) { fakempi_head(src, tag); st->src = src; st->tag = tag; return 0; }
inline int MPI_Get_count(MPI_Status* st, MPI_Datatype t, int* n) { *n = (int) (fakempi_head(st->src, st->tag).size() / t); return 0; }
inline int MPI_Recv(void* p, int n, MPI_Datatype t, int src, int tag, MPI_Comm, MPI_Status*)
{
    std::string& h = fakempi_head(src, tag);
    if (!h.empty())
        memcpy(p, h.data(), std::min(h.size(), (size_t) n * t));
    FakeMpi& m = FakeMpi::get();
    m.chan(src, m.rank, tag).pop_front();
    return 0;
}
