// drivers of the shared queue
#include <cstddef>
#include <optional>
#include <utility>
#include <vector>

#include "frn/lib/net/shared_deque.h"

namespace code {

using Num = unsigned long;
using Buf = std::vector<unsigned char>;
using Msg = std::optional<Buf>;
template <typename T>
using Q = frn::lib::net::SharedDeque<T>;

void n_push_copy(Q<Num> &q, const Num &x) { q.PushBack(x); }
void n_push_move(Q<Num> &q, Num &x) { q.PushBack(std::move(x)); }
Num &n_front(Q<Num> &q) { return q.Front(); }
void n_pop(Q<Num> &q) { q.PopFront(); }
std::size_t n_size(Q<Num> &q) { return q.Size(); }

void b_push_copy(Q<Buf> &q, const Buf &x) { q.PushBack(x); }
void b_push_move(Q<Buf> &q, Buf &x) { q.PushBack(std::move(x)); }
Buf &b_front(Q<Buf> &q) { return q.Front(); }
void b_pop(Q<Buf> &q) { q.PopFront(); }
std::size_t b_size(Q<Buf> &q) { return q.Size(); }

void m_push_copy(Q<Msg> &q, const Msg &x) { q.PushBack(x); }
void m_push_move(Q<Msg> &q, Msg &x) { q.PushBack(std::move(x)); }
Msg &m_front(Q<Msg> &q) { return q.Front(); }
void m_pop(Q<Msg> &q) { q.PopFront(); }
std::size_t m_size(Q<Msg> &q) { return q.Size(); }

}  // namespace code
