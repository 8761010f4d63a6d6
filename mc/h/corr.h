// The function-independent preprocessing driven directly, all parties in lock-step.
#ifndef VERIF_CORR_H
#define VERIF_CORR_H
#include "h/tpc.h"
namespace tpc {
struct Corr {
  int n, t, k, nI, nM, nIO; Tape& tape; Net net; std::vector<std::shared_ptr<tp::Correlator>> c;
  std::vector<std::vector<std::shared_ptr<tp::InputGate>>> in; std::vector<std::vector<std::shared_ptr<tp::MultGate>>> mu;
  std::vector<std::vector<std::shared_ptr<tp::MultBatch>>> mb; std::vector<std::vector<std::shared_ptr<tp::InputBatch>>> ib; std::vector<std::vector<std::shared_ptr<tp::OutputBatch>>> ob;
  Corr(int n_, int t_, int k_, int nI_, int nM_, int nIO_, Tape& tp) : n(n_), t(t_), k(k_), nI(nI_), nM(nM_), nIO(nIO_), tape(tp), net(n_) {
    for (int i = 0; i < n; ++i) { tape.cur = i; c.push_back(std::make_shared<tp::Correlator>(nI, nM, nIO, k)); c[i]->SetNetwork(net.net[i], i); c[i]->PrecomputeEi(); c[i]->SetThreshold(t); c[i]->PrecomputeVandermonde(); }
  }
  template <class F> void all(F f) { for (int i = 0; i < n; ++i) { tape.cur = i; f(*c[i]); } }
  void deal() {
    all([](tp::Correlator& x) { x.GenIndShrsPartiesSend(); x.GenUnpackedShrPartiesSend(); x.GenZeroPartiesSend(); x.GenZeroForProdPartiesSend(); });
    all([](tp::Correlator& x) { x.GenIndShrsPartiesReceive(); x.GenUnpackedShrPartiesReceive(); x.GenZeroPartiesReceive(); x.GenZeroForProdPartiesReceive(); });
  }
  void prod() { all([](tp::Correlator& x) { x.GenProdPartiesSendP1(); }); all([](tp::Correlator& x) { x.GenProdP1ReceivesAndSends(); }); all([](tp::Correlator& x) { x.GenProdPartiesReceive(); }); }
  // hand out: alternately input and multiplication gates; input and output batches
  void map() {
    in.resize(n); mu.resize(n); mb.resize(n); ib.resize(n); ob.resize(n);
    for (int i = 0; i < n; ++i) {
      for (int j = 0; j < nI; ++j) if (j % 2 == 0) { in[i].push_back(std::make_shared<tp::InputGate>(0)); c[i]->PopulateIndvShrs(in[i].back()); } else { mu[i].push_back(std::make_shared<tp::MultGate>()); c[i]->PopulateIndvShrs(mu[i].back()); }
      for (int j = 0; j < nM; ++j) { mb[i].push_back(std::make_shared<tp::MultBatch>(k)); c[i]->PopulateMultBatches(mb[i].back()); }
      for (int j = 0; j < nIO; ++j) if (j % 2 == 0) { ib[i].push_back(std::make_shared<tp::InputBatch>(0, k)); c[i]->PopulateInputBatches(ib[i].back()); } else { ob[i].push_back(std::make_shared<tp::OutputBatch>(0, k)); c[i]->PopulateOutputBatches(ob[i].back()); }
    }
  }
  using V = std::vector<uint64_t>;
  template <class F> V each(F f) { V v; for (int i = 0; i < n; ++i) v.push_back(val(f(i))); return v; }
  V ind(int j) { return each([&](int i) { return j % 2 == 0 ? c[i]->mMapIndShrs.at(in[i][j / 2]) : c[i]->mMapIndShrs.at(mu[i][j / 2]); }); }
  V A(int b) { return each([&](int i) { return c[i]->mMapMultBatch.at(mb[i][b]).mShrA; }); }
  V B(int b) { return each([&](int i) { return c[i]->mMapMultBatch.at(mb[i][b]).mShrB; }); }
  V C(int b) { return each([&](int i) { return c[i]->mMapMultBatch.at(mb[i][b]).mShrC; }); }
  V O(int b, int w) { return each([&](int i) { auto& x = c[i]->mMapMultBatch.at(mb[i][b]); return w == 1 ? x.mShrO1 : w == 2 ? x.mShrO2 : x.mShrO3; }); }
  V Z(int j) { return each([&](int i) { return j % 2 == 0 ? c[i]->mMapInputBatch.at(ib[i][j / 2]).mShrO : c[i]->mMapOutputBatch.at(ob[i][j / 2]).mShrO; }); }
};
}
#endif
