From 0d9819ee2f8b19c481aaa494d12385bceb23223b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:38 +0000
Subject: [PATCH 01/37] fix: int64 assignment normalises 0xffffffff to one limb
 and negates INT64_MIN without overflow

---
 src/BigIntegerImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 1aca459..6c410c0 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -489,11 +489,11 @@ BigIntegerImpl & BigIntegerImpl::assign(std::int64_t i64) {
     }
 
     m_flags = i64 > 0 ? BNFlag::POSITIVE : BNFlag::NEGATIVE;
-    if (i64 < 0) i64 = -i64;
 
     std::uint64_t u64 = i64;
+    if (i64 < 0) u64 = -u64; // INT64_MIN也不会溢出
 
-    int u32s = u64 < std::numeric_limits<std::uint32_t>::max() ? 1 : 2;
+    int u32s = u64 <= std::numeric_limits<std::uint32_t>::max() ? 1 : 2;
     m_mag.slice(0, u32s);
 
     std::uint32_t * p = reinterpret_cast<std::uint32_t*>(&u64);
-- 
2.43.0


From 9b877d23c94a1b5ec09e7c67b8abe7aeccf62019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:09 +0000
Subject: [PATCH 02/37] fix: growing a Slice exposes default elements, not
 stale ones

---
 src/Slice.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Slice.h b/src/Slice.h
index 788ea54..5b71d01 100644
--- a/src/Slice.h
+++ b/src/Slice.h
@@ -113,7 +113,12 @@ public:
             m_hi = m_lo;
             return *this;
         }
-        if (hi > count()) m_data->resize(m_lo + hi);
+        if (hi > count()) {
+            const SizeType oldHi = m_hi, size = m_data->size();
+            m_data->resize(m_lo + hi < size ? size : m_lo + hi);
+            // elements left behind by an earlier narrowing must not reappear
+            std::fill(m_data->begin() + oldHi, m_data->begin() + m_lo + hi, T{});
+        }
         m_lo = m_lo + lo;
         m_hi = m_lo - lo + hi;
 
-- 
2.43.0


From 5c9c85d927c67a3a04ba83273c99ecb78f19842a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:09 +0000
Subject: [PATCH 03/37] fix: binary import of a negative power of two whose
 length is not a multiple of 4

---
 src/BigIntegerImpl.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 6c410c0..49575a4 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -717,10 +717,11 @@ BigIntegerImpl & BigIntegerImpl::assign(const void * bin, SizeType len, bool lit
         SizeType i = 0;
         for (; i < len && bytes[i] == 0; ++i);
 
-        if (i == len) { // - pow2
-            m_mag.append(1);
+        if (i == len) { // - pow2, 真值为 1 << (8 * len)
+            if (len % 4 == 0) m_mag.append(1);
+            else m_mag[len / 4] = static_cast<std::uint32_t>(1) << (len % 4 * 8);
             return *this;
-        }          
+        }
 
         bytes[i] = -bytes[i];
         for (++i; i < len; ++i) bytes[i] = ~bytes[i];
-- 
2.43.0


From 1f5363e45b55d37c4f0aba1c5598d26ec63fd5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:09 +0000
Subject: [PATCH 04/37] fix: parsing a spelling of zero reports success

---
 src/BigIntegerImpl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 49575a4..51ada4b 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -557,6 +557,8 @@ BigIntegerImpl & BigIntegerImpl::fromString(const StringArg & str, int radix, bo
     pos = str.find_first_not_of('0', pos);
     if (pos == StringArg::npos) { // 没有非0位, 就是0
         beZero();
+        PGBN_GetGlobalStatus() = ErrCode::SUCCESS;
+        ok && (*ok = true);
         return *this;
     }
 
-- 
2.43.0


From 6df099dece1a12e0dd67654621c33bf1e95527be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:09 +0000
Subject: [PATCH 05/37] fix: number strings with trailing or embedded invalid
 characters are rejected

---
 src/BigIntegerImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 51ada4b..29982b9 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -580,7 +580,7 @@ BigIntegerImpl & BigIntegerImpl::fromString(const StringArg & str, int radix, bo
     
     std::uint32_t mag0;
     auto fistCov2U32Result = std::from_chars(cStr + pos, cStr + pos + fistBlockDigitCnt, mag0, radix);
-    if (fistCov2U32Result.ec != std::errc{}) { // to uint32_t出错
+    if (fistCov2U32Result.ec != std::errc{} || fistCov2U32Result.ptr != cStr + pos + fistBlockDigitCnt) { // to uint32_t出错
         PGBN_GetGlobalStatus() = ErrCode::NUMBER_STRING_PARSE2NUM_ERROR;
         ok && (*ok = false);
         return *this;
@@ -593,7 +593,7 @@ BigIntegerImpl & BigIntegerImpl::fromString(const StringArg & str, int radix, bo
     std::uint32_t blockValue = 0;
     while (pos < slen) {
         auto toU32Result = std::from_chars(cStr + pos, cStr + pos + blockSize, blockValue, radix);
-        if (toU32Result.ec != std::errc{}) {
+        if (toU32Result.ec != std::errc{} || toU32Result.ptr != cStr + pos + blockSize) {
             PGBN_GetGlobalStatus() = ErrCode::NUMBER_STRING_PARSE2NUM_ERROR;
             ok && (*ok = false);
             return *this;
-- 
2.43.0


From f50768638b8379a290c2742e3e560156346f2afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:09 +0000
Subject: [PATCH 06/37] fix: notBits normalises its result

---
 src/BigIntegerImpl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 29982b9..4d5f0e9 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -1206,6 +1206,9 @@ void BigIntegerImpl::notBits() {
     auto & last = m_mag[len - 1];
     int leadingZeroCnt = util::clz(last);
     last = ~last & (MASK >> leadingZeroCnt);
+
+    detail::eraseZerosSuffix(m_mag); // 去除前导零
+    if (m_mag.count() == 0) beZero();
 }
 
 void BigIntegerImpl::shiftLeftAssign(std::uint64_t u64) {
-- 
2.43.0


From 5d017667877e95105668baefc024c54f887fd57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:09 +0000
Subject: [PATCH 07/37] fix: multi-limb division drops the cached digit index
 of the numbers receiving its results

---
 src/BigIntegerImpl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 4d5f0e9..66476d8 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -1557,6 +1557,8 @@ void BigIntegerImpl::knuthDivImpl(BigIntegerImpl & q, BigIntegerImpl & r, const
     }
 
     // init result-q, result-r
+    q.beginWrite(); // free-cache
+    r.beginWrite(); // free-cache
     q.setFlagsToPositive();
     r.setFlagsToPositive();
 
-- 
2.43.0


From 021d687c2879092cbb6a957f190102d9b9627018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:31 +0000
Subject: [PATCH 08/37] fix: a moved-from BigInteger can be assigned from an
 integer, a string or a buffer

---
 src/BigInteger.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 6ee4f47..29fc30a 100755
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -72,21 +72,23 @@ pgbn::BigInteger & pgbn::BigInteger::operator= (BigInteger && other) noexcept {
 
 // assign from other types
 pgbn::BigInteger & pgbn::BigInteger::operator= (std::int64_t i) {
-    m_pImpl->assign(i);
-    return *this;
+    return assign(i);
 }
 
 pgbn::BigInteger & pgbn::BigInteger::assign(std::int64_t i) {
+    if (!m_pImpl) m_pImpl.reset(new BigIntegerImpl{}); // moved-from
     m_pImpl->assign(i);
     return *this;
 }
 
 pgbn::BigInteger & pgbn::BigInteger::assign(const StringArg & str, int radix, bool * ok) {
+    if (!m_pImpl) m_pImpl.reset(new BigIntegerImpl{}); // moved-from
     m_pImpl->fromString(str, radix, ok);
     return *this;
 }
 
 pgbn::BigInteger & pgbn::BigInteger::fromBinary(const void * bin, SizeType len, bool little) {
+    if (!m_pImpl) m_pImpl.reset(new BigIntegerImpl{}); // moved-from
     m_pImpl->assign(bin, len, little);
     return *this;
 }
-- 
2.43.0


From b9ce351f701166ed86d534cf07be47f3afa119ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:06 +0000
Subject: [PATCH 09/37] fix: the lazily cached digit index can be filled by
 concurrent const reads (atomic, published in one step)

---
 src/BigIntegerImpl.cpp | 25 ++++++++++++-------------
 src/BigIntegerImpl.h   | 30 ++++++++++++++++++++++++------
 2 files changed, 36 insertions(+), 19 deletions(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 66476d8..d1a99ca 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -474,7 +474,7 @@ BigIntegerImpl & BigIntegerImpl::assign(BigIntegerImpl && other) {
     m_mag = std::move(other.m_mag);
 
     other.m_flags = BNFlag::INVALID;
-    other.m_firstNotZeroU32IndexLazy = 0;
+    other.beginWrite();
     return *this;
 }
 
@@ -1672,21 +1672,22 @@ void BigIntegerImpl::modAssignAndQuotientByU32(std::uint32_t u32, BigIntegerImpl
 }
 
 void BigIntegerImpl::beginWrite() {
-    // 擦除所有的懒求值标志
-    detail::eraseBits(m_flags, BNFlag::LAZY_CALCU_FLAGS);
+    // 擦除所有的懒求值结果
+    m_firstNotZeroU32IndexLazy.set(detail::LazyIndex::NOT_CALCUED);
 }
 
 SizeType BigIntegerImpl::getFirstNonZeroU32Index() const {
 
     // 如果求过且没被修改过直接返回
-    if (flagsContains(BNFlag::FIRST_NZ_U32_INDEX_CALCUED))
-        return m_firstNotZeroU32IndexLazy;
+    SizeType index = m_firstNotZeroU32IndexLazy.get();
+    if (index != detail::LazyIndex::NOT_CALCUED) return index;
 
-    // 重新求值并设置标志位
+    // 重新求值并缓存
     auto iter = std::find_if(m_mag.begin(), m_mag.end(), [] (std::uint32_t e) { return e != 0; });
     
-    detail::setBits(m_flags, BNFlag::FIRST_NZ_U32_INDEX_CALCUED);
-    return m_firstNotZeroU32IndexLazy = (iter - m_mag.begin());
+    index = iter - m_mag.begin();
+    m_firstNotZeroU32IndexLazy.set(index);
+    return index;
 }
 
 void BigIntegerImpl::setFlagsToPositive() {
@@ -1716,23 +1717,21 @@ bool BigIntegerImpl::hasSameSigFlag(const BigIntegerImpl & other) const {
 void BigIntegerImpl::beZero() {
     m_mag = Slice<std::uint32_t>();
     m_flags = BNFlag::ZERO;
-    m_firstNotZeroU32IndexLazy = 0;
+    beginWrite();
 }
 
 void BigIntegerImpl::beOne() {
     m_mag = Slice<std::uint32_t>();
     m_flags = BNFlag::POSITIVE;
     m_mag.append(0x1);
-    m_firstNotZeroU32IndexLazy = 0;
-    detail::setBits(m_flags, BNFlag::FIRST_NZ_U32_INDEX_CALCUED);
+    m_firstNotZeroU32IndexLazy.set(0);
 }
 
 void BigIntegerImpl::beNegOne() {
     m_mag = Slice<std::uint32_t>();
     m_flags = BNFlag::NEGATIVE;
     m_mag.append(0x1);
-    m_firstNotZeroU32IndexLazy = 0;
-    detail::setBits(m_flags, BNFlag::FIRST_NZ_U32_INDEX_CALCUED);
+    m_firstNotZeroU32IndexLazy.set(0);
 }
 
 std::uint64_t BigIntegerImpl::toU64() const {
diff --git a/src/BigIntegerImpl.h b/src/BigIntegerImpl.h
index b526ec8..4394fc9 100644
--- a/src/BigIntegerImpl.h
+++ b/src/BigIntegerImpl.h
@@ -1,6 +1,8 @@
 #ifndef PGBIGNUMBER_BIGINTEGERIMPL_H
 #define PGBIGNUMBER_BIGINTEGERIMPL_H
 
+#include <atomic>
+
 #include "fwd.h"
 #include "Slice.h"
 PGBN_NAMESPACE_START
@@ -12,16 +14,32 @@ constexpr Enum ZERO = 1U; // 零标志
 constexpr Enum POSITIVE = 1U << 1U; // 正数标志
 constexpr Enum NEGATIVE = 1U << 2U; // 负数标志
 // constexpr Enum DIRTY = 1U << 3U; // 写标志 [useless]
-constexpr Enum FIRST_NZ_U32_INDEX_CALCUED = 1U << 4U; // 第一个非零U32是否被求值过标志
-
-constexpr Enum LAZY_CALCU_FLAGS = FIRST_NZ_U32_INDEX_CALCUED;
 
 }
 
 #define BNFLAG
 
 class Status;
-namespace detail { class BigIntegerImplToStringHelper; }
+namespace detail {
+
+class BigIntegerImplToStringHelper;
+
+// 懒求值的下标, const函数会写它, 为允许多线程同时读同一个数, 须为原子的
+class LazyIndex {
+public:
+    static constexpr SizeType NOT_CALCUED = std::numeric_limits<SizeType>::max();
+
+    LazyIndex() = default;
+    LazyIndex(const LazyIndex & other) : m_value(other.get()) { }
+    LazyIndex & operator= (const LazyIndex & other) { set(other.get()); return *this; }
+
+    SizeType get() const { return m_value.load(std::memory_order_relaxed); }
+    void set(SizeType value) { m_value.store(value, std::memory_order_relaxed); }
+private:
+    std::atomic<SizeType> m_value{NOT_CALCUED};
+};
+
+}
 
 class BigIntegerImpl {
     friend class detail::BigIntegerImplToStringHelper;
@@ -197,9 +215,9 @@ private:
 
     std::vector<BigIntegerImpl> split(SizeType n, SizeType size) const;
 private:
-    mutable Enum m_flags = BNFlag::ZERO; // flags : 约定: assign(除了copy)后flags只有符号标志位, 其他写操作或懒求值操作均是修改flags的位
+    Enum m_flags = BNFlag::ZERO; // flags : 符号标志位
     Slice<std::uint32_t> m_mag{}; // 绝对值二进制, 去除前导零(高位 | 大下标)
-    mutable SizeType m_firstNotZeroU32IndexLazy = 0; // 从低位开始数的第一个不为0的U32的下标
+    mutable detail::LazyIndex m_firstNotZeroU32IndexLazy; // 从低位开始数的第一个不为0的U32的下标
 };
 
 namespace detail {
-- 
2.43.0


From d64baef3dce42b5d54dd092b7080efbabd086d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:06 +0000
Subject: [PATCH 10/37] fix: in-place writes of a formerly shared Slice are
 ordered after the other owner's reads

---
 src/Slice.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Slice.h b/src/Slice.h
index 5b71d01..6c7b8bb 100644
--- a/src/Slice.h
+++ b/src/Slice.h
@@ -1,6 +1,7 @@
 #ifndef PGBIGNUMBER_SLICE_H
 #define PGBIGNUMBER_SLICE_H
 
+#include <atomic>
 #include <vector>
 #include <memory>
 #include <algorithm>
@@ -72,7 +73,12 @@ public:
     }
 
     Slice & cloneData() {
-        if (!m_data || m_data.use_count() == 1) return *this;
+        if (!m_data) return *this;
+        if (m_data.use_count() == 1) {
+            // use_count is relaxed: order the reads of a copy just released on another thread before our writes
+            std::atomic_thread_fence(std::memory_order_acquire);
+            return *this;
+        }
 
         std::shared_ptr<Vec> newData(new Vec(DEFAULT_PRE_SPACE + m_hi - m_lo));
         std::copy(m_data->begin() + m_lo, m_data->begin() + m_hi, newData->begin() + DEFAULT_PRE_SPACE);
-- 
2.43.0


From 4289d8ab7a9ac9a734e20bee57e60eb9e06052df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:45 +0000
Subject: [PATCH 11/37] fix: built-in status codes are registered once, before
 any use, instead of once per thread over the user's registrations

---
 src/Status.cpp | 41 ++++++++++++++++++++---------------------
 src/Status.h   |  6 +++++-
 2 files changed, 25 insertions(+), 22 deletions(-)

diff --git a/src/Status.cpp b/src/Status.cpp
index b94f570..ff0bf46 100644
--- a/src/Status.cpp
+++ b/src/Status.cpp
@@ -6,30 +6,31 @@
 
 using namespace pgbn;
 
-static bool pgbn_reg() {
-    for (SizeType i = 0; i < errInfoCount; ++i) {
-        auto & errInfo = errInfos[i];
-        Status::registe(
-            errInfo.code,
-            errInfo.info,
-            errInfo.callback, errInfo.code, errInfo.info
-        );
-    }
-    return errInfoCount % 2 == 0;
+// registry
+Status::Registry & Status::registry() {
+    static Registry s_mp = [] {
+        Registry builtins;
+        for (SizeType i = 0; i < errInfoCount; ++i) {
+            auto & errInfo = errInfos[i];
+            builtins[errInfo.code] = std::make_tuple(
+                std::string(errInfo.info),
+                std::bind(errInfo.callback, errInfo.code, errInfo.info)
+            );
+        }
+        return builtins;
+    }();
+    return s_mp;
 }
 
-// static member
-std::unordered_map<Enum, std::tuple<std::string, Callback>> Status::s_mp;
-
 // member functions
 Status::Status(Enum no) noexcept : m_errno(no) {
-    PGZXB_DEBUG_ASSERT_EX("no not exsits", s_mp.find(no) != s_mp.end());
+    PGZXB_DEBUG_ASSERT_EX("no not exsits", registry().find(no) != registry().end());
 
     callback(no);
 }
 
 Status & Status::operator= (Enum no) noexcept {
-    PGZXB_DEBUG_ASSERT_EX("no not exsits", s_mp.find(no) != s_mp.end());
+    PGZXB_DEBUG_ASSERT_EX("no not exsits", registry().find(no) != registry().end());
 
     m_errno = no;
     callback(no);
@@ -52,26 +53,24 @@ void Status::setContext(const std::any & context) {
 // static functions
 Status * Status::getInstance() {
     static thread_local Status s_ins;
-    static thread_local bool h = pgbn_reg();
-    PGZXB_UNUSED(h);
 
     return &s_ins;
 }
 
 void Status::registeImpl(Enum no, const StringArg & info, Callback callback) {
-    s_mp[no] = std::make_tuple(std::string(info.data(), info.size()), callback);
+    registry()[no] = std::make_tuple(std::string(info.data(), info.size()), callback);
 }
 
 void Status::callback(Enum no) {
-    auto iter = s_mp.find(no); // no不存在的情况已被上层劫持
+    auto iter = registry().find(no); // no不存在的情况已被上层劫持
     if (!!std::get<1>(iter->second)) {
         std::get<1>(iter->second)(); // call
     }
 }
 
 bool Status::find(Enum no, std::tuple<std::string, Callback> ** t) {
-    auto iter = s_mp.find(no);
-    if (iter == s_mp.end()) {
+    auto iter = registry().find(no);
+    if (iter == registry().end()) {
         t && (*t = nullptr);
         return false;
     }
diff --git a/src/Status.h b/src/Status.h
index 9db867e..8b9ec11 100644
--- a/src/Status.h
+++ b/src/Status.h
@@ -2,6 +2,8 @@
 #define PGBIGNUMBER_STATUS_H
 
 #include <any>
+#include <tuple>
+#include <unordered_map>
 #include "fwd.h"
 PGBN_NAMESPACE_START
 // 用来存放执行状态(错误码)的类
@@ -50,7 +52,9 @@ public:
     static const Callback & getCallback(Enum no); // 获取回调, 如果no不存在则返回空
     static const std::string & getInfo(Enum no);  // 获取信息, 不在在返回"<ERROR_INFO>"
 private:
-    static std::unordered_map<Enum, std::tuple<std::string, Callback>> s_mp;
+    using Registry = std::unordered_map<Enum, std::tuple<std::string, Callback>>;
+
+    static Registry & registry(); // 首次使用时注册内置错误码, 仅一次
 
     static void registeImpl(Enum no, const StringArg & info, Callback callback);
 
-- 
2.43.0


From 5e7987cbc166a9a2c850aee0df667249af462847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:45 +0000
Subject: [PATCH 12/37] fix: the built-in status table is constant-initialised,
 so numbers can be used during static initialization

---
 src/errInfos.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/errInfos.h b/src/errInfos.h
index a8124a1..10d48e2 100644
--- a/src/errInfos.h
+++ b/src/errInfos.h
@@ -7,7 +7,7 @@ PGBN_NAMESPACE_START
 struct ErrInfo {
     Enum code;
     const char * info;
-    std::function<void(Enum, const char *)> callback;
+    void (*callback)(Enum, const char *); // plain pointer: the table must be usable during static initialization
 };
 
 namespace ErrCode {
-- 
2.43.0


From b40adef26f0d6e341a3b7f95b2d213560552dfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:20 +0000
Subject: [PATCH 13/37] fix: a function call with the wrong number of arguments
 is a parse error with a registered status code

---
 src/errInfos.cpp             | 3 ++-
 src/infixExpr/ExprParser.cpp | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/errInfos.cpp b/src/errInfos.cpp
index 24c02c7..fb7cd51 100644
--- a/src/errInfos.cpp
+++ b/src/errInfos.cpp
@@ -45,7 +45,8 @@ const ErrInfo errInfos[] = {
     { ErrCode::PARSE_INFIXEXPR_RADIX_INVALID          , "[PGBN-Status: Error]Radix Invalid(Requires 2~36)"           , pgbn::detail::debugPrint        },
     { ErrCode::PARSE_INFIXEXPR_LITERAL2NUM_ERROR      , "[PGBN-Status: Error]Parse Literal To Number Error"          , pgbn::detail::debugPrint        },
     { ErrCode::PARSE_INFIXEXPR_EQU_INVALID            , "[PGBN-Status: Error]Expected =="                            , pgbn::detail::debugPrint        },
-    { ErrCode::PARSE_INFIXEXPR_BAD_TOKEN              , "[PGBN-Status: Error]Bad Token"                              , pgbn::detail::debugPrint        }
+    { ErrCode::PARSE_INFIXEXPR_BAD_TOKEN              , "[PGBN-Status: Error]Bad Token"                              , pgbn::detail::debugPrint        },
+    { ErrCode::PARSE_INFIXEXPR_BUILTINFUNC_CALL_NOT_MATCH, "[PGBN-Status: Error]Builtin-Function Call Not Match"  , pgbn::detail::debugPrint        }
 }; 
 const SizeType errInfoCount = sizeof(errInfos) / sizeof(*errInfos);
 
diff --git a/src/infixExpr/ExprParser.cpp b/src/infixExpr/ExprParser.cpp
index a26097f..4dc6d1f 100644
--- a/src/infixExpr/ExprParser.cpp
+++ b/src/infixExpr/ExprParser.cpp
@@ -185,6 +185,12 @@ ExprNode * ExprParser::parseFuncCall(SymbolTable::Symbol * symbol) {
         if (argNodes.size() > 0 && !consumeToken(TokenType::COMMA)) BADTOK(TokenType::COMMA, "Expected ','");
         argNodes.push_back(parseExpr());
     }
+    const int argCount = symbol->as<Func>().argCount;
+    if (argCount != -1 && static_cast<SizeType>(argCount) != argNodes.size()) {
+        m_errCode = ErrCode::PARSE_INFIXEXPR_BUILTINFUNC_CALL_NOT_MATCH;
+        PGBN_GetGlobalStatus() = m_errCode;
+        return nullptr;
+    }
     return m_pNodePool->newFunctionCallNode(symbol, std::move(argNodes));
 }
 
-- 
2.43.0


From 288826f0e8aaba55fb6231aa31fb08ca391092ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:20 +0000
Subject: [PATCH 14/37] fix: a failed parse sets the status of eval and peval
 to a registered error code

---
 src/eval.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index 434c1dd..81f000f 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -21,7 +21,7 @@ Int pgbn::expr::eval(const StringArg &expr, Status *status) {
     NodePool nodePool;
     auto *root = parseString(expr, &nodePool);
     if (!root) {
-        (*status) = ~ErrCode::SUCCESS; // FIXME: Temp
+        (*status) = ErrCode::PARSE_INFIXEXPR_BAD_TOKEN;
         return Int{};
     }
     return BigInteger(std::make_unique<BigIntegerImpl>(root->evalCallback(root, false)));
@@ -35,7 +35,7 @@ Int pgbn::expr::peval(const StringArg &expr, int threads, Status *status) {
     NodePool nodePool;
     auto *root = parseString(expr, &nodePool);
     if (!root) {
-        (*status) = ~ErrCode::SUCCESS; // FIXME: Temp
+        (*status) = ErrCode::PARSE_INFIXEXPR_BAD_TOKEN;
         return Int{};
     }
 
-- 
2.43.0


From 09c37d6dbd09d01706a7d5dcedb442e51510da6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:20 +0000
Subject: [PATCH 15/37] fix: eval and peval read only the characters inside the
 given string view

---
 src/eval.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index 81f000f..d2c78d7 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -11,7 +11,8 @@ using namespace pgbn::expr;
 using namespace pgbn::infixExpr;
 
 static inline ExprNode * parseString(const StringArg &str, NodePool *nodePool) {
-    StringReadStream testSrc1Stream(str.data());
+    const std::string src(str); // str may not be null-terminated
+    StringReadStream testSrc1Stream(src);
     ExprParser parser(testSrc1Stream, *Hooks::getInstance(), nodePool);
     return parser.parse();
 }
-- 
2.43.0


From 6d54e6392deae910785e36d2f744f352d4f6bd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:20 +0000
Subject: [PATCH 16/37] fix: blank expressions and trailing white space no
 longer hang the tokenizer

---
 src/infixExpr/Token.h | 1 +
 src/infixExpr/fwd.h   | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/infixExpr/Token.h b/src/infixExpr/Token.h
index 680c650..2182bf4 100644
--- a/src/infixExpr/Token.h
+++ b/src/infixExpr/Token.h
@@ -59,6 +59,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
     while (!stream.eof()) {
         // 跳过空白符
         utils::skipWhiteChar(stream);
+        if (stream.eof()) break;
 
         // 解析
         char ch = stream.get();
diff --git a/src/infixExpr/fwd.h b/src/infixExpr/fwd.h
index 5661529..79c9172 100644
--- a/src/infixExpr/fwd.h
+++ b/src/infixExpr/fwd.h
@@ -113,7 +113,7 @@ template<typename STREAM>
 void skipWhiteChar(STREAM & stream) {
     // ' ' '\n' '\r' '\t'
     char ch = stream.peek();
-    while (ch == 0 || ch == ' ' || ch == '\r' || ch == '\n' || ch == '\t') {
+    while (ch == ' ' || ch == '\r' || ch == '\n' || ch == '\t') {
         stream.get();
         ch = stream.peek();
     }
@@ -127,7 +127,7 @@ template<typename STREAM>
 void skipWhiteChar(STREAM & stream) {
     // ' ' '\n' '\r' '\t'
     char ch = stream.peek();
-    while (ch == 0 || ch == ' ' || ch == '\r' || ch == '\n' || ch == '\t') {
+    while (ch == ' ' || ch == '\r' || ch == '\n' || ch == '\t') {
         stream.get();
         ch = stream.peek();
     }
-- 
2.43.0


From 2141f74ee673049d1945e6f3c480356c10d943b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:20 +0000
Subject: [PATCH 17/37] fix: upper-case digits of a literal are accepted at
 every position

---
 src/infixExpr/Token.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infixExpr/Token.h b/src/infixExpr/Token.h
index 2182bf4..c48ff68 100644
--- a/src/infixExpr/Token.h
+++ b/src/infixExpr/Token.h
@@ -222,7 +222,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                     }
 
                     if (!onlyZero) {
-                        for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = stream.peek())
+                        for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = std::tolower(stream.peek()))
                             literalBeforeDot.push_back(ch);
                         if (ch == '.') {
                             PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_NOTDEC_BUTREAL;
@@ -231,7 +231,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                     }
                 } else {
                     literalBeforeDot.push_back(ch);
-                    for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = stream.peek())
+                    for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = std::tolower(stream.peek()))
                         literalBeforeDot.push_back(ch);
                     if (ch == '.') {
                         stream.get();
-- 
2.43.0


From 4a9a7d61f111f3828a90ffd2adccb3b4e5ab91ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:20 +0000
Subject: [PATCH 18/37] fix: the fractional part of a literal no longer
 swallows the token after it

---
 src/infixExpr/Token.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infixExpr/Token.h b/src/infixExpr/Token.h
index c48ff68..99a82e3 100644
--- a/src/infixExpr/Token.h
+++ b/src/infixExpr/Token.h
@@ -235,7 +235,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                         literalBeforeDot.push_back(ch);
                     if (ch == '.') {
                         stream.get();
-                        for (ch = std::tolower(stream.get()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = stream.peek())
+                        for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = std::tolower(stream.peek()))
                             literalAfterDot.push_back(ch);
                     }
 
-- 
2.43.0


From e1f8425e47d2214403c48e4d7e1bba1e9866404d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 19/37] fix: expressions with missing operands, trailing or
 untokenizable text are reported instead of crashing or being evaluated in
 part

---
 src/infixExpr/ExprParser.cpp | 8 +++++---
 src/infixExpr/Token.h        | 4 ++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/infixExpr/ExprParser.cpp b/src/infixExpr/ExprParser.cpp
index 4dc6d1f..aee0f16 100644
--- a/src/infixExpr/ExprParser.cpp
+++ b/src/infixExpr/ExprParser.cpp
@@ -23,7 +23,9 @@ ExprParser::ExprParser() = default;
 
 // public functions
 ExprNode * ExprParser::parse() {
-    return parseExpr();
+    Node * root = parseExpr(); CKERR();
+    if (m_tokens[m_currTokenIndex].type != TokenType::TAIL) BADTOK(TokenType::TAIL, "expected end of expression");
+    return root;
 }
 
 // private functions
@@ -176,14 +178,14 @@ ExprNode * ExprParser::parsePrim() {
         if (!consumeToken(TokenType::LEFTBRACKET)) BADTOK(TokenType::LEFTBRACKET, "Expected '()' To Call Function");
         return parseFuncCall(temp.pSymbol);
     }
-    return nullptr;
+    BADTOK(TokenType::LITERAL, "expected an operand");
 }
 
 ExprNode * ExprParser::parseFuncCall(SymbolTable::Symbol * symbol) {
     std::vector<Node*> argNodes;
     while (!consumeToken(TokenType::RIGHTBRACKET)) {
         if (argNodes.size() > 0 && !consumeToken(TokenType::COMMA)) BADTOK(TokenType::COMMA, "Expected ','");
-        argNodes.push_back(parseExpr());
+        argNodes.push_back(parseExpr()); CKERR();
     }
     const int argCount = symbol->as<Func>().argCount;
     if (argCount != -1 && static_cast<SizeType>(argCount) != argNodes.size()) {
diff --git a/src/infixExpr/Token.h b/src/infixExpr/Token.h
index 99a82e3..0e4a291 100644
--- a/src/infixExpr/Token.h
+++ b/src/infixExpr/Token.h
@@ -246,12 +246,12 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                     return res;
                 }
 
-                tokenType = TokenType::LITERAL;
                 tokenVal = Value{};
                 if (!hooks.literal2Value || !hooks.literal2Value(tokenVal, radix, literalBeforeDot, literalAfterDot)) {
                     PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_LITERAL2NUM_ERROR;
                     return res;
                 }
+                tokenType = TokenType::LITERAL;
                 SET_TOKEN_DEBUG_INFO(pgfmt::format("Literval(Base {0}) : {1}.{2} (Value : {3})", radix, literalBeforeDot, literalAfterDot, tokenVal));
             } else if (std::isalpha(ch) || ch == '_') { // 内建常量或内建函数
                 std::string symbolName;
@@ -287,7 +287,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
     }
 
     res.push_back(Token{});
-    res.back().type = TokenType::INVALID;
+    res.back().type = TokenType::TAIL; // only when the whole stream was tokenized
 
 #undef SET_TOKEN_DEBUG_INFO
     return res;
-- 
2.43.0


From 815952a15aedbcb4c1f5ecc6113f76377ed92d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 20/37] fix: <=, > and >= in expressions are no longer
 evaluated as <

---
 src/infixExpr/ExprParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infixExpr/ExprParser.cpp b/src/infixExpr/ExprParser.cpp
index aee0f16..b7aaa4d 100644
--- a/src/infixExpr/ExprParser.cpp
+++ b/src/infixExpr/ExprParser.cpp
@@ -85,11 +85,11 @@ ExprNode * ExprParser::parseCmp() {
         if (consumeToken(TokenType::LT))
             node = m_pNodePool->newBinOpNode(TokenType::LT, node, parseShift());
         else if (consumeToken(TokenType::LE))
-            node = m_pNodePool->newBinOpNode(TokenType::LT, node, parseShift());
+            node = m_pNodePool->newBinOpNode(TokenType::LE, node, parseShift());
         else if (consumeToken(TokenType::GT))
-            node = m_pNodePool->newBinOpNode(TokenType::LT, node, parseShift());
+            node = m_pNodePool->newBinOpNode(TokenType::GT, node, parseShift());
         else if (consumeToken(TokenType::GE))
-            node = m_pNodePool->newBinOpNode(TokenType::LT, node, parseShift());
+            node = m_pNodePool->newBinOpNode(TokenType::GE, node, parseShift());
         else return node;
     }
     return nullptr;
-- 
2.43.0


From f5cd25b129d1dd13346fbc6041e2cd063d8c038b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 21/37] fix: chains of == and != parse like every other binary
 operator

---
 src/infixExpr/ExprParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infixExpr/ExprParser.cpp b/src/infixExpr/ExprParser.cpp
index b7aaa4d..4b68b4b 100644
--- a/src/infixExpr/ExprParser.cpp
+++ b/src/infixExpr/ExprParser.cpp
@@ -74,7 +74,7 @@ ExprNode * ExprParser::parseEqu() {
             node = m_pNodePool->newBinOpNode(TokenType::EQU, node, parseCmp());
         else if (consumeToken(TokenType::NEQU))
             node = m_pNodePool->newBinOpNode(TokenType::NEQU, node, parseCmp());
-        return node;
+        else return node;
     }
     return nullptr;
 }
-- 
2.43.0


From 7a52c07e79dc5f8375fd0a1f279926f3ba307864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 22/37] fix: % in expressions is evaluated

---
 src/infixExpr/ExprTree.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/infixExpr/ExprTree.cpp b/src/infixExpr/ExprTree.cpp
index 5697f2f..7a87270 100644
--- a/src/infixExpr/ExprTree.cpp
+++ b/src/infixExpr/ExprTree.cpp
@@ -52,6 +52,12 @@ static Value binOpEvalCallback(ExprNode * node, bool peval) {
         lOpAssRAndReturn(mul);
     case TokenType::DIV :
         lOpAssRAndReturn(div);
+    case TokenType::MOD :
+        {
+            Value q;
+            left.modAssignAndQuotient(right, q);
+            return left;
+        }
     case TokenType::SHIFTLEFT :
         left.shiftLeftAssign(right.toU64());
         return left;
-- 
2.43.0


From 87b26c50642601ca16e14cffe04f9d0ed9b10423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 23/37] fix: x ** 0 is 1

---
 src/infixExpr/ExprTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infixExpr/ExprTree.cpp b/src/infixExpr/ExprTree.cpp
index 7a87270..32e5a8a 100644
--- a/src/infixExpr/ExprTree.cpp
+++ b/src/infixExpr/ExprTree.cpp
@@ -67,7 +67,7 @@ static Value binOpEvalCallback(ExprNode * node, bool peval) {
     case TokenType::POW :
         // TODO: Opt it
         if (right.isZero()) {
-            return Value(0);
+            return Value(1);
         }
         {
             auto res = Value(1);
-- 
2.43.0


From 5577880d31562b0dbb3a0bb0be5bca83abcd3d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 24/37] fix: a decimal literal may have a zero integer part
 before its fraction

---
 src/infixExpr/Token.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/infixExpr/Token.h b/src/infixExpr/Token.h
index 0e4a291..63e03d0 100644
--- a/src/infixExpr/Token.h
+++ b/src/infixExpr/Token.h
@@ -219,6 +219,11 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                     } else {
                         literalBeforeDot = "0";
                         onlyZero = true;
+                        if (stream.peek() == '.') {
+                            stream.get();
+                            for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = std::tolower(stream.peek()))
+                                literalAfterDot.push_back(ch);
+                        }
                     }
 
                     if (!onlyZero) {
-- 
2.43.0


From 3f0ad25b493b608975e38cb6686eb231334bca8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 25/37] fix: an exception thrown while evaluating a node
 reaches peval's caller instead of deadlocking it

---
 src/infixExpr/ExprTree.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/infixExpr/ExprTree.cpp b/src/infixExpr/ExprTree.cpp
index 32e5a8a..c40edfe 100644
--- a/src/infixExpr/ExprTree.cpp
+++ b/src/infixExpr/ExprTree.cpp
@@ -139,8 +139,11 @@ static void pevalTask(ExprNode * node) {
     // std::ostringstream oss;
     // oss << std::this_thread::get_id();
     // std::cerr << pgfmt::format("Thread#{0} node#{1} start\n", oss.str(), (std::uint64_t)node );
-    auto temp = node->evalCallback(node, true);
-    node->valPromise.set_value(temp);
+    try {
+        node->valPromise.set_value(node->evalCallback(node, true));
+    } catch (...) { // the waiting parent (or peval's caller) gets it
+        node->valPromise.set_exception(std::current_exception());
+    }
     // std::cerr << pgfmt::format("Thread#{0} node#{1}: peval = {2}\n", oss.str(),
     //     (std::uint64_t)node, temp.cmp(INT64_MAX) == 1 ? temp.toString(10).substr(0, 50).append("...") : temp.toString(10));
 }
-- 
2.43.0


From fa1680ed63b286ee0efc1602bbd5753b972300a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:02 +0000
Subject: [PATCH 26/37] fix: peval evaluates only the selected branch of ?:, as
 eval does

---
 src/eval.cpp               | 23 +++++++++++++++--------
 src/infixExpr/ExprTree.cpp |  3 ++-
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index d2c78d7..f8e3faa 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -47,20 +47,27 @@ Int pgbn::expr::peval(const StringArg &expr, int threads, Status *status) {
     std::vector<std::uint32_t> parents(N);
     std::vector<std::uint32_t> childCnt(N);
 
-    for (std::uint32_t i = 0; i < N; ++i) {
-        auto * node = nodePool.get(i);
+    // Only nodes outside the branches of ?: are tasks, the branch selected is evaluated with its condition
+    std::uint32_t taskCnt = 0;
+    std::vector<ExprNode *> unvisited{root};
+    while (!unvisited.empty()) {
+        auto * node = unvisited.back();
+        unvisited.pop_back();
+        ++taskCnt;
+        const auto i = node->indexInPool;
         const auto & children = node->children;
-        if (children.size() == 0) q.push(i);
-        childCnt[i] = children.size();
-        for (const auto * child : children) {
-            PGZXB_DEBUG_ASSERT(child->indexInPool < N);
-            parents[child->indexInPool] = i;
+        childCnt[i] = node->nodeType == TokenType::QMARK ? 1 : children.size();
+        if (childCnt[i] == 0) q.push(i);
+        for (std::uint32_t c = 0; c < childCnt[i]; ++c) {
+            PGZXB_DEBUG_ASSERT(children[c]->indexInPool < N);
+            parents[children[c]->indexInPool] = i;
+            unvisited.push_back(children[c]);
         }
     }
 
     std::uint32_t cnt = 0;
     std::vector<std::future<void>> currLevelFu;
-    while (cnt != N) {
+    while (cnt != taskCnt) {
         const std::uint32_t cntInQueue = q.size();
         for (std::uint32_t i = 0; i < cntInQueue; ++i, ++cnt) {
             auto childIndex = q.front();
diff --git a/src/infixExpr/ExprTree.cpp b/src/infixExpr/ExprTree.cpp
index c40edfe..2f31fee 100644
--- a/src/infixExpr/ExprTree.cpp
+++ b/src/infixExpr/ExprTree.cpp
@@ -14,7 +14,8 @@ inline static Value eval(ExprNode * node, bool peval) {
 static Value ifElseNodeEvalCallback(ExprNode * node, bool peval) {
     PGZXB_DEBUG_ASSERT(node->children.size() == 3);
     auto & ch = node->children;
-    return !eval(ch[0], peval).isZero() ? eval(ch[1], peval) : eval(ch[2], peval);
+    // peval不调度分支中的节点, 选中的分支在此求值
+    return !eval(ch[0], peval).isZero() ? eval(ch[1], false) : eval(ch[2], false);
 }
 
 static Value binOpEvalCallback(ExprNode * node, bool peval) {
-- 
2.43.0


From 9a31870830e2e898072678d0b2bcd2497067635d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:02 +0000
Subject: [PATCH 27/37] fix: releasing all poppers cannot be lost by one about
 to wait

---
 src/parallel/SimpleConcurrenceQueue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parallel/SimpleConcurrenceQueue.h b/src/parallel/SimpleConcurrenceQueue.h
index f5d8c49..2122704 100644
--- a/src/parallel/SimpleConcurrenceQueue.h
+++ b/src/parallel/SimpleConcurrenceQueue.h
@@ -72,6 +72,7 @@ public:
     }
 
     void notifyAllPop() {
+        std::lock_guard<std::mutex> _(m_mutex); // a popper must not miss it between its check and its wait
         m_alwaysPop = true;
         m_cond.notify_all();
     }
-- 
2.43.0


From bcc4f59e6d4e01d84555373d341c26fa5246765a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:48 +0000
Subject: [PATCH 28/37] fix: the reciprocal of zero reports divide-by-zero

---
 src/Fraction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Fraction.h b/src/Fraction.h
index cfad1c6..9304dcd 100644
--- a/src/Fraction.h
+++ b/src/Fraction.h
@@ -83,7 +83,7 @@ public:
     }
 
     Fraction reciprocal(bool *ok = nullptr) const {
-        if (m_den == 0) {
+        if (m_num == 0) {
             if (ok) *ok = false;
             PGBN_GetGlobalStatus() = ErrCode::DIVBY0;
             return {};
-- 
2.43.0


From ab296f6c7e8fd18ae489ca437a6c4ebdaaa406aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:48 +0000
Subject: [PATCH 29/37] fix: toDecimal keeps the sign and the leading zeros of
 the expansion

---
 src/Fraction.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/Fraction.h b/src/Fraction.h
index 9304dcd..77e907b 100644
--- a/src/Fraction.h
+++ b/src/Fraction.h
@@ -69,17 +69,20 @@ public:
     }
 
     std::string toDecimal(int maxDecimalDigitCount = 8) const {
-        auto q = m_num.absoluted() % m_den.absoluted();
+        const auto num = m_num.absoluted();
+        const auto den = m_den.absoluted(); // the sign may be on either of them
+        const auto q = num % den;
         std::string digitalDigitsStr;
         if(maxDecimalDigitCount > 0) {
-            auto mul = BigInteger("1" + std::string(maxDecimalDigitCount, '0'));
+            const std::size_t digitCount = maxDecimalDigitCount;
+            auto mul = BigInteger("1" + std::string(digitCount, '0'));
+            const auto digits = (q * mul / den).toString();
             digitalDigitsStr.append(".")
-                .append((q * mul / m_den).toString());
-            if (maxDecimalDigitCount > digitalDigitsStr.size()) {
-                digitalDigitsStr.append(std::string(maxDecimalDigitCount - digitalDigitsStr.size(), '0'));
-            }
+                .append(digitCount - digits.size(), '0') // q < den, so at most digitCount digits
+                .append(digits);
         }
-        return (m_num / m_den).toString(10) + digitalDigitsStr;
+        const bool negative = m_num.cmp(0) * m_den.cmp(0) < 0;
+        return (negative ? "-" : "") + (num / den).toString(10) + digitalDigitsStr;
     }
 
     Fraction reciprocal(bool *ok = nullptr) const {
-- 
2.43.0


From 0a7c9ae28785a39b696cd553dd46c993aa61d8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:48 +0000
Subject: [PATCH 30/37] fix: Fraction.h can be included from several
 translation units

---
 src/Fraction.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/Fraction.h b/src/Fraction.h
index 77e907b..8724266 100644
--- a/src/Fraction.h
+++ b/src/Fraction.h
@@ -12,10 +12,10 @@ PGBN_NAMESPACE_START
 namespace experimental {
 
 class Fraction;
-Fraction operator+(const Fraction &left, const Fraction &right);
-Fraction operator-(const Fraction &left, const Fraction &right);
-Fraction operator*(const Fraction &left, const Fraction &right);
-Fraction operator/(const Fraction &left, const Fraction &right);
+inline Fraction operator+(const Fraction &left, const Fraction &right);
+inline Fraction operator-(const Fraction &left, const Fraction &right);
+inline Fraction operator*(const Fraction &left, const Fraction &right);
+inline Fraction operator/(const Fraction &left, const Fraction &right);
 
 // Minimum API (for my homework)
 class Fraction {
@@ -114,7 +114,7 @@ private:
     BigInteger m_den{1}; // denominator
 };
 
-Fraction operator+(const Fraction &left, const Fraction &right) {
+inline Fraction operator+(const Fraction &left, const Fraction &right) {
     auto new_num = left.m_num * right.m_den + right.m_num * left.m_den;
     auto new_den = left.m_den * right.m_den;
     Fraction result;
@@ -124,7 +124,7 @@ Fraction operator+(const Fraction &left, const Fraction &right) {
     return result;
 }
 
-Fraction operator-(const Fraction &left, const Fraction &right) {
+inline Fraction operator-(const Fraction &left, const Fraction &right) {
     auto new_num = left.m_num * right.m_den - right.m_num * left.m_den;
     auto new_den = left.m_den * right.m_den;
     Fraction result;
@@ -134,7 +134,7 @@ Fraction operator-(const Fraction &left, const Fraction &right) {
     return result;
 }
 
-Fraction operator*(const Fraction &left, const Fraction &right) {
+inline Fraction operator*(const Fraction &left, const Fraction &right) {
     auto new_num = left.m_num * right.m_num;
     auto new_den = left.m_den * right.m_den;
     Fraction result;
@@ -144,7 +144,7 @@ Fraction operator*(const Fraction &left, const Fraction &right) {
     return result;
 }
 
-Fraction operator/(const Fraction &left, const Fraction &right) {
+inline Fraction operator/(const Fraction &left, const Fraction &right) {
     if (right.m_num == 0) {
         PGBN_GetGlobalStatus() = ErrCode::DIVBY0;
         return {};
-- 
2.43.0


From b2c9bf21fbc56b7d9f2142679b9e44fe0aeb0e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:48 +0000
Subject: [PATCH 31/37] fix: the C binding's GetUInt64 accepts the values of
 uint64_t, and only them

---
 c/src/pgbn.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/c/src/pgbn.cpp b/c/src/pgbn.cpp
index ef690e8..8aba004 100644
--- a/c/src/pgbn.cpp
+++ b/c/src/pgbn.cpp
@@ -168,10 +168,9 @@ uint64_t pgbn_BigInteger_GetUInt64(pgbn_BigInteger_t * b) {
 }
 
 uint64_t pgbn_BigInteger_GetUInt64WithChecking(pgbn_BigInteger_t * b, bool * ok) {
-    if (
-        pgbn_BigInteger_CmpWithI64(b, std::numeric_limits<std::uint64_t>::max()) > 0 ||
-        pgbn_BigInteger_CmpWithI64(b, std::numeric_limits<std::uint64_t>::min()) < 0
-    ) {
+    pgbn::BigIntegerImpl high(*b->impl);
+    high.shiftRightAssign(64); // zero exactly for 0..2^64-1
+    if (!high.isZero()) {
         *pgbn::Status::getInstance() = pgbn::ErrCode::ARITHMETIC_OVERFLOW;
         ok && (*ok = false);
         return std::numeric_limits<std::uint64_t>::max();
-- 
2.43.0


From d0b3e15565319a924b570f48bb06bbf3262a6143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:48 +0000
Subject: [PATCH 32/37] fix: the C binding's global status handle refers to the
 calling thread's status

---
 c/src/pgbn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/pgbn.cpp b/c/src/pgbn.cpp
index 8aba004..e2d8cfe 100644
--- a/c/src/pgbn.cpp
+++ b/c/src/pgbn.cpp
@@ -19,7 +19,7 @@ struct pgbn_BigInteger_t {
 
 // pgbn::Status
 pgbn_Status_t * pgbn_Status_GetGlobalInstance() {
-    static pgbn_Status_t ins;
+    static thread_local pgbn_Status_t ins;
     ins.status = pgbn::Status::getInstance();
     return &ins; 
 }
-- 
2.43.0


From 22911a87fc33b7739888b1aa2c9a80b7e361c63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:48 +0000
Subject: [PATCH 33/37] fix: a pool with the default thread count has a worker
 when the core count is unknown

---
 src/eval.cpp              | 3 ++-
 src/parallel/ThreadPool.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index f8e3faa..60fd00b 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -4,6 +4,7 @@
 #include "infixExpr/ExprTree.h"
 #include "infixExpr/ExprParser.h"
 #include "parallel/ThreadPool.h"
+#include <algorithm>
 
 using namespace pgbn;
 using namespace pg::base;
@@ -30,7 +31,7 @@ Int pgbn::expr::eval(const StringArg &expr, Status *status) {
 
 Int pgbn::expr::peval(const StringArg &expr, int threads, Status *status) {
     if (threads == 0) return eval(expr, status);
-    if (threads < 0) threads = std::thread::hardware_concurrency();
+    if (threads < 0) threads = std::max(1u, std::thread::hardware_concurrency()); // may be unknown (0)
     if (!status) status = Status::getInstance();
 
     NodePool nodePool;
diff --git a/src/parallel/ThreadPool.h b/src/parallel/ThreadPool.h
index db12b5e..e302d84 100644
--- a/src/parallel/ThreadPool.h
+++ b/src/parallel/ThreadPool.h
@@ -4,13 +4,14 @@
 #include "fwd.h"
 #include "SimpleConcurrenceQueue.h"
 
+#include <algorithm>
 #include <atomic>
 #include <memory>
 #include <thread>
 #include <future>
 
 PGBN_PARALLEL_NAMESPACE_START
-inline static auto kDefaultNThreads = std::thread::hardware_concurrency();
+inline static auto kDefaultNThreads = std::max(1u, std::thread::hardware_concurrency()); // may be unknown (0)
 
 class ThreadPool {
     using TaskQueue = SimpleConcurrenceQueue<RawTask>;
-- 
2.43.0


From 8af53745c377cd20066cb9b17d1c56a07a7906b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:01 +0000
Subject: [PATCH 34/37] fix: int64 > BigInteger compares in the right direction

---
 src/BigInteger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 29fc30a..10f4a5d 100755
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -334,7 +334,7 @@ bool pgbn::operator<= (std::int64_t left, const BigInteger & right)       { retu
 
 bool pgbn::operator>  (const BigInteger & left, const BigInteger & right) { return left.cmp(right) > 0;  }
 bool pgbn::operator>  (const BigInteger & left, std::int64_t right)       { return left.cmp(right) > 0;  }
-bool pgbn::operator>  (std::int64_t left, const BigInteger & right)       { return right.cmp(left) > 0;  }
+bool pgbn::operator>  (std::int64_t left, const BigInteger & right)       { return right.cmp(left) < 0;  }
 
 bool pgbn::operator>= (const BigInteger & left, const BigInteger & right) { return left.cmp(right) >= 0; }
 bool pgbn::operator>= (const BigInteger & left, std::int64_t right)       { return left.cmp(right) >= 0; }
-- 
2.43.0


From 645c4512a8c9f4627bdd43e60e64e083a9da83e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:47 +0000
Subject: [PATCH 35/37] fix: format shows the argument and limits each
 placeholder names

---
 src/pgdebug.h | 66 +++++++++++++++++++--------------------------------
 1 file changed, 24 insertions(+), 42 deletions(-)

diff --git a/src/pgdebug.h b/src/pgdebug.h
index df36470..9053706 100755
--- a/src/pgdebug.h
+++ b/src/pgdebug.h
@@ -239,49 +239,38 @@ namespace pg::util::stringUtil {
         
         template<typename..._Args>
         std::vector<std::string> parseArgs(
-            const std::vector<std::string>& limits, const _Args&... args);
+            const std::vector<int>& nos, const std::vector<std::string>& limits, const _Args&... args);
 
         template<typename _First, typename..._Args>
-        void __IN_parseArgs(
-            std::vector<std::string> & res, 
-            const std::vector<std::string>& limits, 
-            std::vector<std::string>::const_iterator & limStrIter,
+        std::string __IN_parseArg(
+            std::size_t no, const std::string& limit,
             const _First& fArg, const _Args&... args);
 
-        void __IN_parseArgs(
-            std::vector<std::string> & res, 
-            const std::vector<std::string> & limits, 
-            std::vector<std::string>::const_iterator & limStrIter);
+        std::string __IN_parseArg(std::size_t no, const std::string& limit);
         
         // function-definitions
+        // the i-th placeholder shows the args[nos[i]] under limits[i]
         template<typename..._Args>
         std::vector<std::string> parseArgs(
-            const std::vector<std::string>& limits, const _Args&... args) {
+            const std::vector<int>& nos, const std::vector<std::string>& limits, const _Args&... args) {
             std::vector<std::string> res;
-            std::vector<std::string>::const_iterator iter = limits.begin();
-            __IN_parseArgs(res, limits, iter, args...);
+            for (std::size_t i = 0; i < nos.size(); ++i) {
+                res.push_back(__IN_parseArg(nos.at(i), limits.at(i), args...));
+            }
 
             return res;
         }
 
         template<typename _First, typename..._Args>
-        void __IN_parseArgs(
-            std::vector<std::string> & res, 
-            const std::vector<std::string>& limits, 
-            std::vector<std::string>::const_iterator & limStrIter,
+        std::string __IN_parseArg(
+            std::size_t no, const std::string& limit,
             const _First& fArg, const _Args&... args
             ) {
-            res.push_back(transToString(fArg, *limStrIter));
-            ++limStrIter;
-            if (limStrIter == limits.end()) return;
-            __IN_parseArgs(res, limits, limStrIter, args...);
+            if (no == 0) return transToString(fArg, limit);
+            return __IN_parseArg(no - 1, limit, args...);
         }
 
-        inline void __IN_parseArgs(
-            std::vector<std::string> & res,
-            const std::vector<std::string>& limits,
-            std::vector<std::string>::const_iterator & limStrIter
-            ) { }
+        inline std::string __IN_parseArg(std::size_t, const std::string&) { return std::string(); }
 
         inline std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>> 
             parseBracket(
@@ -308,18 +297,14 @@ namespace pg::util::stringUtil {
             _Res & res,
             const std::string & fmt,
             const std::vector<std::string> & contents,
-            const std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>> & ranges,
-            const std::vector<int> & nos) {
+            const std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>> & ranges) {
             res.append(fmt.begin(), ranges.front().first - 1);
             const std::size_t cSize = contents.size();
-            const std::size_t nosSize = nos.size();
-            std::size_t idx = 0;
-            for (std::size_t i = 0; i + 1 < nosSize; ++i) {
-                idx = nos.at(i);
-                if (idx < cSize) res.append(contents.at(idx));
+            for (std::size_t i = 0; i + 1 < cSize; ++i) {
+                res.append(contents.at(i));
                 res.append(ranges.at(i).second + 1, ranges.at(i + 1).first - 1);
             }
-            if ((idx = nos.back()) < cSize) res.append(contents.at(idx));
+            res.append(contents.back());
             res.append(ranges.back().second + 1, fmt.end());
         }
 
@@ -348,18 +333,15 @@ namespace pg::util::stringUtil {
             else limits.emplace_back();
         }
         
-        std::vector<std::string> contents =  __IN_fmtUtil::parseArgs(limits, args...);
+        std::vector<std::string> contents =  __IN_fmtUtil::parseArgs(nos, limits, args...);
 
         std::string res; res.append(fmt.begin(), contentRangeInBracket.front().first - 1);
         const std::size_t cSize = contents.size();
-        const std::size_t nosSize = nos.size();
-        std::size_t idx = 0;
-        for (std::size_t i = 0; i + 1 < nosSize; ++i) {
-            idx = nos.at(i);
-            if (idx < cSize) res.append(contents.at(idx));
+        for (std::size_t i = 0; i + 1 < cSize; ++i) {
+            res.append(contents.at(i));
             res.append(contentRangeInBracket.at(i).second + 1, contentRangeInBracket.at(i + 1).first - 1);
         }
-        if ((idx = nos.back()) < cSize) res.append(contents.at(idx));
+        res.append(contents.back());
         res.append(contentRangeInBracket.back().second + 1, fmt.end());
 
         return res;
@@ -387,9 +369,9 @@ namespace pg::util::stringUtil {
             else limits.emplace_back();
         }
         
-        std::vector<std::string> contents =  __IN_fmtUtil::parseArgs(limits, args...);
+        std::vector<std::string> contents =  __IN_fmtUtil::parseArgs(nos, limits, args...);
 
-        __IN_fmtUtil::pushStringIntoBracket(res, fmt, contents, contentRangeInBracket, nos);
+        __IN_fmtUtil::pushStringIntoBracket(res, fmt, contents, contentRangeInBracket);
     }
 
 } // namespace pg::util::stringUtil
-- 
2.43.0


From fa3f5c0364b61a702cfc868223b570ca3f9787bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 36/37] fix: format sizes its output from the text instead of
 fixed buffers

---
 src/pgdebug.h | 94 +++++++++++++--------------------------------------
 1 file changed, 24 insertions(+), 70 deletions(-)

diff --git a/src/pgdebug.h b/src/pgdebug.h
index 9053706..9931296 100755
--- a/src/pgdebug.h
+++ b/src/pgdebug.h
@@ -38,6 +38,7 @@
 #include <iterator>
 #include <memory>
 #include <cinttypes>
+#include <cstdio>
 
 #include <typeinfo>
 
@@ -65,6 +66,17 @@ namespace pg::util::stringUtil::__IN_fmtUtil {
     std::enable_if_t<!has_iterator<_Type>::value, std::string> transToString(const _Type& ele, const std::string &);
 
     // function-definitions
+    template<typename _Type>
+    std::string printWithLimit(const std::string & limit, const char * conversion, const _Type & ele) {
+        const std::string fmt = "%" + limit + conversion;
+        const int len = snprintf(nullptr, 0, fmt.c_str(), ele);
+        if (len < 0) return std::string();
+        std::string res(len + 1, '\0'); // +1 : terminating '\0'
+        snprintf(&res[0], res.size(), fmt.c_str(), ele);
+        res.pop_back();
+        return res;
+    }
+
     inline std::string transToString(const bool & ele, const std::string &) {
         return ele ? "true" : "false";
     }
@@ -74,19 +86,11 @@ namespace pg::util::stringUtil::__IN_fmtUtil {
     }
 
     inline std::string transToString(const std::int16_t & ele, const std::string & limit) {
-        char buf[20] = { 0 };
-        char fmt[10] = { 0 };
-        sprintf(fmt, "%%%s" PRId16 "", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return printWithLimit(limit, PRId16, ele);
     }
 
     inline std::string transToString(const std::uint16_t & ele, const std::string & limit) {
-        char buf[20] = { 0 };
-        char fmt[10] = { 0 };
-        sprintf(fmt, "%%%s" PRIu16 "", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return printWithLimit(limit, PRIu16, ele);
     }
 
     inline std::string transToString(const std::uint8_t & ele, const std::string &) {
@@ -94,90 +98,40 @@ namespace pg::util::stringUtil::__IN_fmtUtil {
     }
 
     inline std::string transToString(const std::int32_t & ele, const std::string & limit) {
-        char buf[20] = { 0 };
-        char fmt[10] = { 0 };
-        sprintf(fmt, "%%%s" PRId32 "", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return printWithLimit(limit, PRId32, ele);
     }
 
     inline std::string transToString(const std::uint32_t & ele, const std::string & limit) {
-        char buf[20] = { 0 };
-        char fmt[10] = { 0 };
-        sprintf(fmt, "%%%s" PRIu32 "", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return printWithLimit(limit, PRIu32, ele);
     }
 
     inline std::string transToString(const std::int64_t & ele, const std::string & limit) {
-        char buf[40] = { 0 };
-        char fmt[20] = { 0 };
-        sprintf(fmt, "%%%s" PRId64 "", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return printWithLimit(limit, PRId64, ele);
     }
 
     inline std::string transToString(const std::uint64_t & ele, const std::string & limit) {
-        char buf[40] = { 0 };
-        char fmt[20] = { 0 };
-        sprintf(fmt, "%%%s" PRIu64 "", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return printWithLimit(limit, PRIu64, ele);
     }
 
     inline std::string transToString(const float & ele, const std::string & limit) {
-        char buf[40] = { 0 };
-        char fmt[20] = { 0 };
-        sprintf(fmt, "%%%sf", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return printWithLimit(limit, "f", ele);
     }
 
     inline std::string transToString(const double & ele, const std::string & limit) {
-        char buf[40] = { 0 };
-        char fmt[20] = { 0 };
-        sprintf(fmt, "%%%slf", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return printWithLimit(limit, "lf", ele);
     }
 
     inline std::string transToString(const long double & ele, const std::string & limit) {
-        char buf[50] = { 0 };
-        char fmt[30] = { 0 };
-        sprintf(fmt, "%%%sllf", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return printWithLimit(limit, "Lf", ele);
     }
 
     inline std::string transToString(const std::string & ele, const std::string & limit) {
-        struct HeapCharArrayWrapper {  // temp-tool
-            HeapCharArrayWrapper(char * arr) : ptr(arr) { }
-            ~HeapCharArrayWrapper() { if (ptr != nullptr) delete [] ptr; }
-            char * ptr = nullptr;
-        };
-
-        HeapCharArrayWrapper buf(new char[(ele.size() + 1) * 2]);  // temp-processing ==> Buffer
-        char fmt[50] = { 0 };
-
-        sprintf(fmt, "%%%ss", limit.c_str());
-        sprintf(buf.ptr, fmt, ele.c_str());
-        return std::string(buf.ptr);
+        if (limit.empty()) return ele;
+        return printWithLimit(limit, "s", ele.c_str());
     }
 
     inline std::string transToString(const char * ele, const std::string & limit) {
-        struct HeapCharArrayWrapper {  // temp-tool
-            HeapCharArrayWrapper(char * arr) : ptr(arr) { }
-            ~HeapCharArrayWrapper() { if (ptr != nullptr) delete [] ptr; }
-            char * ptr = nullptr;
-        };
-
-        const size_t len = std::strlen(ele);
-        HeapCharArrayWrapper buf(new char[len << 1]);  // temp-processing ==> Buffer
-        char fmt[50] = { 0 };
-
-        sprintf(fmt, "%%%ss", limit.c_str());
-        sprintf(buf.ptr, fmt, ele);
-        return std::string(buf.ptr);
+        return printWithLimit(limit, "s", ele);
     }
 
     template <typename _First, typename _Second>
-- 
2.43.0


From f941347da514598f06d3113b2217e6c8f522334c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:18 +0000
Subject: [PATCH 37/37] fix: formatAppend appends a pattern without
 placeholders

---
 src/pgdebug.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pgdebug.h b/src/pgdebug.h
index 9931296..661e29d 100755
--- a/src/pgdebug.h
+++ b/src/pgdebug.h
@@ -307,7 +307,7 @@ namespace pg::util::stringUtil {
         
         std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>>
             contentRangeInBracket = __IN_fmtUtil::parseBracket(fmt, "{", "}");
-        if (contentRangeInBracket.empty()) { res = fmt; return; }
+        if (contentRangeInBracket.empty()) { res.append(fmt.begin(), fmt.end()); return; }
 
         std::vector<std::string> limits;
         std::vector<int> nos;
-- 
2.43.0

