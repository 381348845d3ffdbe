// the combinations the check keeps (not part of its interface)
#include <algorithm>
#include <deque>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <condition_variable>
#include <optional>
#include <random>
#include <sstream>
#include <thread>
#include <atomic>
#include <vector>
#define private public
#include "check.h"
#undef private
namespace code {
F Sent(ARGS) { BEGIN; p.ComputeRandomCoefficients(); p.PrepareLinearCombinations(); return p.mCompressedCD.shares_sent_to_p1; }
F Opened(ARGS) { BEGIN; p.ComputeRandomCoefficients(); p.PrepareLinearCombinations(); return p.mCompressedCD.values_recv_from_p1; }
V Received(ARGS) { BEGIN; p.ComputeRandomCoefficients(); p.PrepareLinearCombinations(); return p.mCompressedCD.shares_recv_by_p1; }
VV Messages(ARGS) { BEGIN; p.ComputeRandomCoefficients(); p.PrepareMsgs(); return p.mCompressedCD.msgs; }
}  // namespace code
namespace dom {
bool Sent(ARGS) { return Ok(VALS); }
bool Opened(ARGS) { return Ok(VALS); }
bool Received(ARGS) { return Ok(VALS); }
bool Messages(ARGS) { return Ok(VALS); }
}  // namespace dom
namespace spec {
// combined by the contributors other than the first party
F Sent(ARGS) {
  M m(net->Id(), t, net->Size());
  F s = F::kZero;
  if (net->Id() > 0 && net->Id() < 2 * t + 1)
    for (N i = 0; i < cd.counter; ++i) s += Coefficient(i) * cd.shares_sent_to_p1[i];
  return s;
}
F Opened(ARGS) {
  M m(net->Id(), t, net->Size());
  F s = F::kZero;
  if (net->Id() > 0 && net->Id() < 2 * t + 1)
    for (N i = 0; i < cd.counter; ++i) s += Coefficient(i) * cd.values_recv_from_p1[i];
  return s;
}
// combined by the first party, per contributor
V Received(ARGS) {
  M m(net->Id(), t, net->Size());
  V r;
  for (N u = 0; u < 2 * t + 1; ++u) {
    F s = F::kZero;
    if (net->Id() == 0)
      for (N i = 0; i < cd.counter; ++i) s += Coefficient(i) * cd.shares_recv_by_p1[u][i];
    r.push_back(s);
  }
  return r;
}
VV Messages(ARGS) {
  M m(net->Id(), t, net->Size());
  const N w = R(net->Size(), 2 * t).ShareSize();
  VV r;
  for (N u = 0; u < 2 * t + 1; ++u) {
    V s;
    for (N x = 0; x < w; ++x) s.push_back(CombinedMsg(cd, u, x));
    r.push_back(s);
  }
  return r;
}
}  // namespace spec
