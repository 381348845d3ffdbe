From 6421bbbb3acde8f42efa2e7a7b4e2858fd732182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:10 +0000
Subject: [PATCH 01/19] fix: absorb all eight bytes of each word in
 Hash::Update

---
 src/frn/lib/primitives/hash.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/frn/lib/primitives/hash.h b/src/frn/lib/primitives/hash.h
index ee449d2..b5df72e 100644
--- a/src/frn/lib/primitives/hash.h
+++ b/src/frn/lib/primitives/hash.h
@@ -186,9 +186,9 @@ Hash<Tag> &Hash<Tag>::Update(const unsigned char *bytes, std::size_t nbytes) {
   for (std::size_t i = 0; i < words; ++i) {
     const uint64_t t =
         (uint64_t)(p[0]) | ((uint64_t)(p[1]) << 8 * 1) |
-        ((uint64_t)(p[1]) << 8 * 2) | ((uint64_t)(p[1]) << 8 * 3) |
-        ((uint64_t)(p[1]) << 8 * 4) | ((uint64_t)(p[1]) << 8 * 5) |
-        ((uint64_t)(p[1]) << 8 * 6) | ((uint64_t)(p[1]) << 8 * 7);
+        ((uint64_t)(p[2]) << 8 * 2) | ((uint64_t)(p[3]) << 8 * 3) |
+        ((uint64_t)(p[4]) << 8 * 4) | ((uint64_t)(p[5]) << 8 * 5) |
+        ((uint64_t)(p[6]) << 8 * 6) | ((uint64_t)(p[7]) << 8 * 7);
 
     mState[mWordIndex] ^= t;
 
-- 
2.43.0


From acea26787ee4efca81dbf70968b62235bade3d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:10 +0000
Subject: [PATCH 02/19] fix: report a disconnected peer in TCPConnector::Recv

---
 src/frn/lib/net/connector.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/frn/lib/net/connector.cc b/src/frn/lib/net/connector.cc
index 2c666fd..a1486dd 100644
--- a/src/frn/lib/net/connector.cc
+++ b/src/frn/lib/net/connector.cc
@@ -63,7 +63,10 @@ std::int64_t frn::lib::net::TCPConnector::Recv(unsigned char* buffer,
     auto n = mSystem->read(mSocket, buffer + offset, rem);
 
     // other end disconnected.
-    if (!n) break;
+    if (!n) {
+      mState = Connector::State::eError;
+      throw std::runtime_error("connection closed by peer");
+    }
     if (n < 0) set_error_and_throw("recv failed");
 
     rem -= n;
-- 
2.43.0


From 991edb29ddcff072626707ec728d8754717fe2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:10 +0000
Subject: [PATCH 03/19] fix: keep the unread part of a message in
 LocalConnector::Recv

---
 src/frn/lib/net/connector.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/frn/lib/net/connector.h b/src/frn/lib/net/connector.h
index f20f75b..59eb9aa 100644
--- a/src/frn/lib/net/connector.h
+++ b/src/frn/lib/net/connector.h
@@ -177,10 +177,13 @@ class LocalConnector : public Connector {
   };
 
   std::int64_t Recv(unsigned char *buffer, std::size_t size) {
-    auto data = mIncoming->Front();
+    auto &data = mIncoming->Front();
     auto actual_size = std::min(data.size(), size);
     std::memcpy(buffer, data.data(), actual_size);
-    mIncoming->PopFront();
+    if (actual_size == data.size())
+      mIncoming->PopFront();
+    else
+      data.erase(data.begin(), data.begin() + actual_size);
     return actual_size;
   };
 
-- 
2.43.0


From 71a9ccd8a8abc98c6cc0156ae113e27a4b8a497c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:41 +0000
Subject: [PATCH 04/19] fix: send all queued messages before AsyncSenderChannel
 closes its connector

---
 src/frn/lib/net/channel.cc | 20 ++++++++++----------
 src/frn/lib/net/channel.h  |  3 ++-
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/frn/lib/net/channel.cc b/src/frn/lib/net/channel.cc
index c6b0a37..041b533 100644
--- a/src/frn/lib/net/channel.cc
+++ b/src/frn/lib/net/channel.cc
@@ -10,9 +10,10 @@ void frn::lib::net::AsyncSenderChannel::Open() {
   mConnector->Connect();
   mSender = std::async(std::launch::async, [&]() {
     while (true) {
-      std::vector<unsigned char> buf = mSendQueue.Front();
-      if (mConnector->State() != Connector::State::eActive) break;
-      mConnector->Send(buf.data(), buf.size());
+      auto& message = mSendQueue.Front();
+      // an empty entry is put in the queue by Close.
+      if (!message) break;
+      mConnector->Send(message->data(), message->size());
       mSendQueue.PopFront();
     }
   });
@@ -20,15 +21,14 @@ void frn::lib::net::AsyncSenderChannel::Open() {
 
 void frn::lib::net::AsyncSenderChannel::Send(const unsigned char* buffer,
                                         std::size_t size) {
-  mSendQueue.PushBack({buffer, buffer + size});
+  mSendQueue.PushBack(std::vector<unsigned char>(buffer, buffer + size));
 }
 
 void frn::lib::net::AsyncSenderChannel::Close() {
-  // signal the async job that we're done by closing the connector and then
-  // sending an empty message. The message ensures that sender job will check
-  // if the connector is still alive and thus exit correctly.
-  mConnector->Close();
-  unsigned char dummy = 1;
-  Send(&dummy, 1);
+  // signal the async job that we're done by queueing an entry without a message
+  // behind everything sent so far. The connector is closed only after the job
+  // got there, so that no message is lost.
+  mSendQueue.PushBack(std::nullopt);
   mSender.wait();
+  mConnector->Close();
 }
diff --git a/src/frn/lib/net/channel.h b/src/frn/lib/net/channel.h
index e47f272..fac2262 100644
--- a/src/frn/lib/net/channel.h
+++ b/src/frn/lib/net/channel.h
@@ -3,6 +3,7 @@
 
 #include <future>
 #include <memory>
+#include <optional>
 #include <sstream>
 #include <stdexcept>
 #include <vector>
@@ -112,7 +113,7 @@ class AsyncSenderChannel : public Channel {
   void Send(const unsigned char *buffer, std::size_t size);
 
  private:
-  SharedDeque<std::vector<unsigned char>> mSendQueue;
+  SharedDeque<std::optional<std::vector<unsigned char>>> mSendQueue;
   std::future<void> mSender;
 };
 
-- 
2.43.0


From 706b145661810f15ceedc27d9275f54710026bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:41 +0000
Subject: [PATCH 05/19] fix: report failed sends when closing an
 AsyncSenderChannel

---
 src/frn/lib/net/channel.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/frn/lib/net/channel.cc b/src/frn/lib/net/channel.cc
index 041b533..95e3618 100644
--- a/src/frn/lib/net/channel.cc
+++ b/src/frn/lib/net/channel.cc
@@ -31,4 +31,6 @@ void frn::lib::net::AsyncSenderChannel::Close() {
   mSendQueue.PushBack(std::nullopt);
   mSender.wait();
   mConnector->Close();
+  // rethrows if sending failed.
+  mSender.get();
 }
-- 
2.43.0


From a748819812fb5766a9912b9da3864f49a0b6a5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:41 +0000
Subject: [PATCH 06/19] fix: data race on the state of a Connector

---
 src/frn/lib/net/connector.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/frn/lib/net/connector.h b/src/frn/lib/net/connector.h
index 59eb9aa..26a7ad7 100644
--- a/src/frn/lib/net/connector.h
+++ b/src/frn/lib/net/connector.h
@@ -2,6 +2,7 @@
 #define _FRN_LIB_NET_CONNECTOR_H
 
 #include <algorithm>
+#include <atomic>
 #include <cstring>
 #include <memory>
 #include <sstream>
@@ -119,7 +120,8 @@ class Connector {
   /**
    * @brief Current state.
    */
-  enum State mState = State::eIdle;
+  // written by the thread that sends as well as the one that receives.
+  std::atomic<enum State> mState{State::eIdle};
 };
 
 }  // namespace net
-- 
2.43.0


From 3f1f2718ca90bfdeda0f429895fb9fc5edd1530f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:41 +0000
Subject: [PATCH 07/19] fix: 65536 is not a valid port

---
 src/frn/lib/net/connector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frn/lib/net/connector.h b/src/frn/lib/net/connector.h
index 26a7ad7..6f6f9b4 100644
--- a/src/frn/lib/net/connector.h
+++ b/src/frn/lib/net/connector.h
@@ -254,7 +254,7 @@ class TCPConnector : public Connector {
  * @brief Returns true if a port is valid.
  */
 constexpr inline bool invalid_port(int port) {
-  return port < 1025 || port > 65536;
+  return port < 1025 || port > 65535;
 }
 
 /**
-- 
2.43.0


From c1b057a867287b88c4b54c764b1e3f75f0298602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:41 +0000
Subject: [PATCH 08/19] fix: validate the addresses of peers when building a
 network

---
 src/frn/lib/net/builder.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/frn/lib/net/builder.cc b/src/frn/lib/net/builder.cc
index 41ef815..9d7238f 100644
--- a/src/frn/lib/net/builder.cc
+++ b/src/frn/lib/net/builder.cc
@@ -78,6 +78,11 @@ Network frn::lib::net::Network::Builder::Build() const {
     if (mAllLocal) {
       for (auto& ip : ips) ip = "0.0.0.0";
     } else {
+      if (!mIps) throw std::logic_error("addresses of peers not provided");
+      if (mIps->size() != n)
+        throw std::logic_error(
+            "number of entries in connection file "
+            "does not match network size");
       ips = mIps.value();
     }
 
-- 
2.43.0


From b437a9960ae038c9339c6bf77d61f8448ff9357f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:41 +0000
Subject: [PATCH 09/19] fix: store the random share of a multiplication only
 once

---
 src/frn/mult.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/frn/mult.h b/src/frn/mult.h
index e95b735..4804c95 100644
--- a/src/frn/mult.h
+++ b/src/frn/mult.h
@@ -140,8 +140,6 @@ class Mult {
 
   AddAndMsgs MultiplyToAddAndMsgs(const Shr& a, const Shr& b,
                                   const RandomShare& randomShares) {
-    mRandomShares.emplace_back(randomShares);
-
     // Initialize output
     AddAndMsgs output;
     output.add_share = Field(0);
-- 
2.43.0


From 8aa5e18da0eef2ecf4947dc18b5776ab4bb4da10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:41 +0000
Subject: [PATCH 10/19] fix: all parties in U compress their check data

---
 src/frn/check.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frn/check.h b/src/frn/check.h
index 7db14f5..233bc29 100644
--- a/src/frn/check.h
+++ b/src/frn/check.h
@@ -81,7 +81,7 @@ class Check {
     START_TIMER(LinearComb);
 
     // this assumes 2d+1 = n-d <> n=3d+1 (so U=T)
-    if ((0 < mId) && (mId < 2 * mThreshold - 1)) {
+    if ((0 < mId) && (mId < 2 * mThreshold + 1)) {
       for (unsigned mult_idx = 0; mult_idx < mCheckData.counter; mult_idx++) {
 
         mCompressedCD.shares_sent_to_p1 +=
-- 
2.43.0


From 30211ef441dae6ee649403ca63aa4b682af85bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:41 +0000
Subject: [PATCH 11/19] fix: start each entry of the reconstruction table with
 no parties

---
 src/frn/shr.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/frn/shr.cc b/src/frn/shr.cc
index 79083d7..c853749 100644
--- a/src/frn/shr.cc
+++ b/src/frn/shr.cc
@@ -139,9 +139,8 @@ void frn::ShrManipulator::Init() {
 
   // precompute mTableRec
   // We use the double-replicator since this will be used to reconstruct a degree-2d sharing
-  RecEntry entry;
-
   for (unsigned shr_id = 0; shr_id < mDoubleReplicator.ShareSize(); shr_id++) {
+    RecEntry entry;
     // We convert the input index from local to global
     int shr_id_ = mDoubleReplicator.IndexSetFor(mPartyId)[shr_id];
 
-- 
2.43.0


From 77306ea4fb9897b8f719a261b247384c230306ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:41 +0000
Subject: [PATCH 12/19] fix: derive an input mask from all additive shares of
 its key

---
 src/frn/input_corr.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frn/input_corr.cc b/src/frn/input_corr.cc
index 7b76af7..c055154 100644
--- a/src/frn/input_corr.cc
+++ b/src/frn/input_corr.cc
@@ -25,7 +25,8 @@ frn::InputSetup::Correlator frn::InputSetup::Run() {
   auto copy = mPrg;
   auto size = mNetwork->Size();
   auto shr_k = mReplicator.Share(k, mPrg);
-  auto add_k = frn::lib::secret_sharing::ShareAdditive(k, size, copy);
+  auto add_k = frn::lib::secret_sharing::ShareAdditive(
+      k, mReplicator.AdditiveShareSize(), copy);
 
   for (std::size_t i = 0; i < size; i++) {
     mNetwork->SendShares(i, {shr_k[i]});
-- 
2.43.0


From 3db0b133467292ba8c7e56cecddf45b8339dad43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:41 +0000
Subject: [PATCH 13/19] fix: use fresh randomness for each mask share

---
 src/frn/input_corr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frn/input_corr.h b/src/frn/input_corr.h
index b4dc2bd..19a2854 100644
--- a/src/frn/input_corr.h
+++ b/src/frn/input_corr.h
@@ -46,7 +46,7 @@ class InputSetup {
     Shr GetMaskShare(unsigned id) {
       std::vector<frn::Field> share;
       share.reserve(mShareSize);
-      auto prg_id = mPrgs[id];
+      auto& prg_id = mPrgs[id];
       for (std::size_t i = 0; i < mShareSize; i++)
         share.emplace_back(GetRandomElement(prg_id[i]));
       return share;
-- 
2.43.0


From 9899ac96c6d0726d3f58de82e913f27a5baae203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:41 +0000
Subject: [PATCH 14/19] fix: reject network sizes outside the supported range
 in the experiments

---
 src/frn/exp_check.cc | 2 +-
 src/frn/exp_input.cc | 2 +-
 src/frn/exp_mult.cc  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/frn/exp_check.cc b/src/frn/exp_check.cc
index 9b0857f..8a40a73 100644
--- a/src/frn/exp_check.cc
+++ b/src/frn/exp_check.cc
@@ -9,7 +9,7 @@
 #define BASE_PORT 6677
 
 inline std::size_t ValidateN(const std::size_t n) {
-  assert(n > 3 || n < 17);
+  assert(n > 3 && n < 17);
   return n;
 }
 
diff --git a/src/frn/exp_input.cc b/src/frn/exp_input.cc
index eecd8a5..2d4c5cb 100644
--- a/src/frn/exp_input.cc
+++ b/src/frn/exp_input.cc
@@ -18,7 +18,7 @@ inline void Populate(std::vector<frn::Field>& vector) {
 }
 
 inline std::size_t ValidateN(const std::size_t n) {
-  assert(n > 3 || n < 17);
+  assert(n > 3 && n < 17);
   return n;
 }
 
diff --git a/src/frn/exp_mult.cc b/src/frn/exp_mult.cc
index b8023f5..67ce8b2 100644
--- a/src/frn/exp_mult.cc
+++ b/src/frn/exp_mult.cc
@@ -9,7 +9,7 @@
 #define BASE_PORT 6677
 
 inline std::size_t ValidateN(const std::size_t n) {
-  assert(n > 3 || n < 17);
+  assert(n > 3 && n < 17);
   return n;
 }
 
-- 
2.43.0


From a2b1c3c39f91108171468b1e2212e506e731777c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:41 +0000
Subject: [PATCH 15/19] fix: Matrix::ToString of matrices that are not square

---
 src/frn/lib/math/mat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frn/lib/math/mat.h b/src/frn/lib/math/mat.h
index ca5c7c5..b7f18e9 100644
--- a/src/frn/lib/math/mat.h
+++ b/src/frn/lib/math/mat.h
@@ -254,8 +254,8 @@ class Matrix {
    * @return a string representation of this matrix
    */
   std::string ToString() const {
-    const auto n = ColumnCount();
-    const auto m = RowCount();
+    const auto n = RowCount();
+    const auto m = ColumnCount();
 
     // convert all elements to strings and find the widest string in each
     // column.
-- 
2.43.0


From 540ca2db9a73f8ff59e75c2c7e3df2a2b3665c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:41 +0000
Subject: [PATCH 16/19] fix: reject submatrices which extend beyond the matrix

---
 src/frn/lib/math/mat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frn/lib/math/mat.h b/src/frn/lib/math/mat.h
index b7f18e9..bc13173 100644
--- a/src/frn/lib/math/mat.h
+++ b/src/frn/lib/math/mat.h
@@ -92,10 +92,10 @@ class Matrix {
    */
   Matrix extract_submatrix(std::size_t row_beg, std::size_t row_end,
                            std::size_t col_beg, std::size_t col_end) {
-    if (row_beg > row_end || row_end - row_beg > RowCount())
+    if (row_beg > row_end || row_end > RowCount())
       throw std::logic_error("invalid row offsets");
 
-    if (col_beg > col_end || col_end - col_beg > ColumnCount())
+    if (col_beg > col_end || col_end > ColumnCount())
       throw std::logic_error("invalid column offsets");
 
     auto nrows = row_end - row_beg;
-- 
2.43.0


From 28f6bd60290f8ec19d38ce57c58cba58749fa53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:56 +0000
Subject: [PATCH 17/19] fix: connect sockets through SystemInterface

---
 src/frn/lib/net/connector.cc | 2 +-
 src/frn/lib/net/sysi.cc      | 6 ++++++
 src/frn/lib/net/sysi.h       | 6 ++++++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/frn/lib/net/connector.cc b/src/frn/lib/net/connector.cc
index a1486dd..245de1c 100644
--- a/src/frn/lib/net/connector.cc
+++ b/src/frn/lib/net/connector.cc
@@ -118,7 +118,7 @@ void frn::lib::net::TCPClientConnector::EstablishConnection() {
     set_error_and_throw("hostname");
 
   while (true) {
-    if (::connect(sock, (struct sockaddr*)&addr, sizeof(addr)) < 0) {
+    if (mSystem->connect(sock, (struct sockaddr*)&addr, sizeof(addr)) < 0) {
       std::this_thread::sleep_for(CLIENT_CONNECT_SLEEP);
     } else {
       break;
diff --git a/src/frn/lib/net/sysi.cc b/src/frn/lib/net/sysi.cc
index 23b159a..bcf9480 100644
--- a/src/frn/lib/net/sysi.cc
+++ b/src/frn/lib/net/sysi.cc
@@ -36,6 +36,12 @@ int frn::lib::net::SystemInterface::set_socket_options(int sockfd, int level,
   return ::setsockopt(sockfd, level, optname, optval, optlen);
 }
 
+int frn::lib::net::SystemInterface::connect(int sockfd,
+                                       const struct sockaddr* addr,
+                                       socklen_t addrlen) {
+  return ::connect(sockfd, addr, addrlen);
+}
+
 int frn::lib::net::SystemInterface::bind(int sockfd, const struct sockaddr* addr,
                                     socklen_t addrlen) {
   return ::bind(sockfd, addr, addrlen);
diff --git a/src/frn/lib/net/sysi.h b/src/frn/lib/net/sysi.h
index 0f1da4d..a9939c7 100644
--- a/src/frn/lib/net/sysi.h
+++ b/src/frn/lib/net/sysi.h
@@ -66,6 +66,12 @@ class SystemInterface {
   virtual int set_socket_options(int sockfd, int level, int optname,
                                  const void *optval, socklen_t optlen);
 
+  /**
+   * @brief Man 2 connect.
+   */
+  virtual int connect(int sockfd, const struct sockaddr *addr,
+                      socklen_t addrlen);
+
   /**
    * @brief Man 2 bind.
    */
-- 
2.43.0


From 4af0eeb3f2c9d02740f39bfb9fd736e4e3307b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:56 +0000
Subject: [PATCH 18/19] fix: close the listening socket once a client is
 accepted

---
 src/frn/lib/net/connector.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/frn/lib/net/connector.cc b/src/frn/lib/net/connector.cc
index 245de1c..4a6f76f 100644
--- a/src/frn/lib/net/connector.cc
+++ b/src/frn/lib/net/connector.cc
@@ -165,5 +165,11 @@ void frn::lib::net::TCPServerConnector::EstablishConnection() {
 
   if (sock < 0) set_error_and_throw("could not accept connection from client");
 
+  // only one connection is accepted.
+  if (mSystem->close(ssock) < 0) {
+    mSystem->close(sock);
+    set_error_and_throw("error while closing listening socket");
+  }
+
   mSocket = sock;
 }
-- 
2.43.0


From b27d0fd64538ec56e708c8938e3e5e082262f86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:11 +0000
Subject: [PATCH 19/19] fix: release the sockets of a failed connection attempt

---
 src/frn/lib/net/connector.cc | 26 ++++++++++++--------------
 src/frn/lib/net/connector.h  |  4 +++-
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/frn/lib/net/connector.cc b/src/frn/lib/net/connector.cc
index 4a6f76f..765f5d9 100644
--- a/src/frn/lib/net/connector.cc
+++ b/src/frn/lib/net/connector.cc
@@ -104,12 +104,6 @@ frn::lib::net::TCPClientConnector::TCPClientConnector(
 void frn::lib::net::TCPClientConnector::EstablishConnection() {
   using namespace std::chrono_literals;
 
-  int sock = mSystem->create_socket(AF_INET, SOCK_STREAM, 0);
-
-  if (sock < 0) set_error_and_throw("could not acquire socket");
-
-  // TODO: TCP_NODELAY, TCP_CORK ?
-
   struct sockaddr_in addr;
   addr.sin_family = AF_INET;
   addr.sin_port = htons(mPort);
@@ -117,6 +111,12 @@ void frn::lib::net::TCPClientConnector::EstablishConnection() {
   if (read_hostname(mSystem, mHostname, &addr) == -1)
     set_error_and_throw("hostname");
 
+  int sock = mSystem->create_socket(AF_INET, SOCK_STREAM, 0);
+
+  if (sock < 0) set_error_and_throw("could not acquire socket");
+
+  // TODO: TCP_NODELAY, TCP_CORK ?
+
   while (true) {
     if (mSystem->connect(sock, (struct sockaddr*)&addr, sizeof(addr)) < 0) {
       std::this_thread::sleep_for(CLIENT_CONNECT_SLEEP);
@@ -146,7 +146,7 @@ void frn::lib::net::TCPServerConnector::EstablishConnection() {
 
   auto err = mSystem->set_socket_options(ssock, SOL_SOCKET, options, &opt,
                                          sizeof(opt));
-  if (err < 0) set_error_and_throw("could not set options on socket");
+  if (err < 0) set_error_and_throw("could not set options on socket", ssock);
 
   struct sockaddr_in addr;
   addr.sin_family = AF_INET;
@@ -156,20 +156,18 @@ void frn::lib::net::TCPServerConnector::EstablishConnection() {
   struct sockaddr* addr_ptr = (struct sockaddr*)&addr;
 
   if (mSystem->bind(ssock, addr_ptr, sizeof(addr)) < 0)
-    set_error_and_throw("bind");
+    set_error_and_throw("bind", ssock);
 
-  if (mSystem->listen(ssock, 1) < 0) set_error_and_throw("listen");
+  if (mSystem->listen(ssock, 1) < 0) set_error_and_throw("listen", ssock);
 
   auto addrsize = sizeof(addr);
   int sock = mSystem->accept(ssock, addr_ptr, (socklen_t*)&addrsize);
 
-  if (sock < 0) set_error_and_throw("could not accept connection from client");
+  if (sock < 0) set_error_and_throw("could not accept connection from client", ssock);
 
   // only one connection is accepted.
-  if (mSystem->close(ssock) < 0) {
-    mSystem->close(sock);
-    set_error_and_throw("error while closing listening socket");
-  }
+  if (mSystem->close(ssock) < 0)
+    set_error_and_throw("error while closing listening socket", sock);
 
   mSocket = sock;
 }
diff --git a/src/frn/lib/net/connector.h b/src/frn/lib/net/connector.h
index 6f6f9b4..1e1a0ee 100644
--- a/src/frn/lib/net/connector.h
+++ b/src/frn/lib/net/connector.h
@@ -231,10 +231,12 @@ class TCPConnector : public Connector {
 
   /**
    * @brief Converts C style errors to <code>std::system_error</code>.
+   * @param sock a socket to close before throwing, if not negative
    */
-  void set_error_and_throw(std::string error_message) {
+  void set_error_and_throw(std::string error_message, int sock = -1) {
     mState = Connector::State::eError;
     auto err = mSystem->get_errno();
+    if (sock >= 0) mSystem->close(sock);
     throw std::system_error(err, std::generic_category(),
                             error_message.c_str());
   };
-- 
2.43.0

