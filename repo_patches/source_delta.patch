From 3c9267c916c2e6b0aabc3882f2d0e94e851a1f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 01/89] fix: bint128 keeps large negative values and never
 writes more than 9 bytes

---
 datas/base_128.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datas/base_128.hpp b/datas/base_128.hpp
index 176d946..b5fa3c3 100644
--- a/datas/base_128.hpp
+++ b/datas/base_128.hpp
@@ -54,8 +54,8 @@ struct bint128 {
 
   void Write(BinWritterRef wr) const {
     // there shouldn't be a sign flag for values lower than
-    // -72'057'594'037'927'936
-    bool sign = value < 0 && !(~(value >> 56));
+    // -36'028'797'018'963'968
+    bool sign = value < 0 && !(~(value >> 55));
     uint64 valueCopy = sign ? ~value : value;
     uint8 lastValue = 0;
     size_t lastIndex = 0;
@@ -64,7 +64,7 @@ struct bint128 {
       lastValue = static_cast<uint8>(valueCopy);
       valueCopy >>= 7;
 
-      if (!valueCopy) {
+      if (!valueCopy || lastIndex == 8) {
         break;
       }
 
-- 
2.43.0


From 1e19010cca6412b6ef6f828d172d0756e3e76ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 02/89] fix: byte swapped writing of arrays writes the array,
 not its address

---
 datas/binwritter_ref.hpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/datas/binwritter_ref.hpp b/datas/binwritter_ref.hpp
index 529b532..86a5393 100644
--- a/datas/binwritter_ref.hpp
+++ b/datas/binwritter_ref.hpp
@@ -107,14 +107,30 @@ private:
   template <class C, class T> void _WriteSingle(const T &value, ...) const {
     const size_t capacity = sizeof(T);
     if (this->swapEndian && capacity > 1) {
-      auto outCopy = value;
-      FByteswapper(outCopy, true);
-      WriteBuffer(reinterpret_cast<const char *>(&outCopy), capacity);
+      _WriteSwapped(value);
     } else {
       WriteBuffer(reinterpret_cast<const char *>(&value), capacity);
     }
   }
 
+  template <class T> void _WriteSwapped(const T &value) const {
+    auto outCopy = value;
+    FByteswapper(outCopy, true);
+    WriteBuffer(reinterpret_cast<const char *>(&outCopy), sizeof(T));
+  }
+
+  template <class T, size_t _size>
+  void _WriteSwapped(const T (&value)[_size]) const {
+    if (sizeof(T) == 1) {
+      WriteBuffer(reinterpret_cast<const char *>(value), _size);
+      return;
+    }
+
+    for (auto &v : value) {
+      _WriteSwapped(v);
+    }
+  }
+
   template <class C, class D>
   auto _WriteElements(const D *input, size_t numElements, int) const
       -> decltype(std::declval<C>().Write(*this), void()) {
-- 
2.43.0


From 6e5908d078d5656ed61a97bf3e052fdd7e0329ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 03/89] fix: RunThreadedQueue runs its tasks when the number of
 cores is unknown

---
 datas/multi_thread.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datas/multi_thread.hpp b/datas/multi_thread.hpp
index b31be1a..642901a 100644
--- a/datas/multi_thread.hpp
+++ b/datas/multi_thread.hpp
@@ -23,7 +23,9 @@
 #include <thread>
 
 template <class lmBody> void RunThreadedQueue(size_t numTasks, lmBody &&fc) {
-  const size_t numHWThreads = std::thread::hardware_concurrency();
+  // hardware_concurrency may not be computable, in which case it's 0
+  const size_t numHWThreads =
+      std::max<size_t>(std::thread::hardware_concurrency(), 1);
   const size_t numThreads = std::min(numHWThreads, numTasks);
   size_t curTask = 0;
   using future_type = std::future<decltype(fc(size_t()))>;
-- 
2.43.0


From 1a69ecb576769d4d321ebb6a4506a8181d7c9746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 04/89] fix: printer functions can be added while other threads
 print

---
 datas/master_printer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datas/master_printer.cpp b/datas/master_printer.cpp
index 0a06803..3ae3d93 100644
--- a/datas/master_printer.cpp
+++ b/datas/master_printer.cpp
@@ -52,6 +52,8 @@ static struct MasterPrinter {
 #endif
 
 void MasterPrinterThread::AddPrinterFunction(print_func func, bool useColor) {
+  std::lock_guard<std::mutex> guard(__MasterPrinter._mutexPrint);
+
   for (auto &c : __MasterPrinter.functions)
     if (c.func == func)
       return;
@@ -118,5 +120,6 @@ void MasterPrinterThread::operator>>(int endWay) {
 }
 
 void MasterPrinterThread::PrintThreadID(bool yn) {
+  std::lock_guard<std::mutex> guard(__MasterPrinter._mutexPrint);
   __MasterPrinter.printThreadID = yn;
 }
-- 
2.43.0


From 8d523f8201af8bcb48d8a6b25e965399356ffc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 05/89] fix: trimming whitespace of an empty view reads nothing

---
 datas/supercore.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/datas/supercore.hpp b/datas/supercore.hpp
index abb2ca6..326b52a 100644
--- a/datas/supercore.hpp
+++ b/datas/supercore.hpp
@@ -95,9 +95,8 @@ bool IsEnd(const cnt &container, const iterType &iter) {
 
 template <class sview>
 sview SkipStartWhitespace(sview input, bool inclNewLine = false) noexcept {
-  while ((input[0] == ' ' || input[0] == '\t' ||
-          (inclNewLine && input[0] == '\n')) &&
-         !input.empty())
+  while (!input.empty() && (input[0] == ' ' || input[0] == '\t' ||
+                            (inclNewLine && input[0] == '\n')))
     input.remove_prefix(1);
 
   return input;
@@ -105,9 +104,8 @@ sview SkipStartWhitespace(sview input, bool inclNewLine = false) noexcept {
 
 template <class sview>
 sview SkipEndWhitespace(sview input, bool inclNewLine = false) noexcept {
-  while ((input.back() == ' ' || input.back() == '\t' ||
-          (inclNewLine && input.back() == '\n')) &&
-         !input.empty())
+  while (!input.empty() && (input.back() == ' ' || input.back() == '\t' ||
+                            (inclNewLine && input.back() == '\n')))
     input.remove_suffix(1);
 
   return input;
-- 
2.43.0


From 00cbdc2b70fdc3f28895f98de5c79471d5d0185a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 06/89] fix: bit field members of any width and sign can be set
 from text

---
 datas/reflector.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 1ef44b2..8ab85e6 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -105,10 +105,13 @@ template <class type> struct LimitProxy<BFTag<type>> {
   const int64 iMin;
 
   LimitProxy(size_t numBits_)
-      : numBits(numBits_), uMax((1 << numBits) - 1), iMax(uMax >> 1),
+      : numBits(numBits_), uMax(~0ULL >> (64 - numBits)), iMax(uMax >> 1),
         iMin(~iMax) {}
 };
 
+template <class T> struct IsSignedNumber : std::is_signed<T> {};
+template <class T> struct IsSignedNumber<BFTag<T>> : std::is_signed<T> {};
+
 template <typename T>
 static Reflector::ErrorType SetNumber(const std::string &input, T &output,
                                       std::true_type,
@@ -117,7 +120,7 @@ static Reflector::ErrorType SetNumber(const std::string &input, T &output,
   const int base =
       !input.compare(0, 2, "0x") || !input.compare(0, 3, "-0x") ? 16 : 10;
 
-  if (std::is_signed<T>::value) {
+  if (IsSignedNumber<T>::value) {
     int64 value = 0;
     const int64 iMin = proxy.iMin;
     const int64 iMax = proxy.iMax;
@@ -156,7 +159,7 @@ static Reflector::ErrorType SetNumber(const std::string &input, T &output,
     }
 
     if (input[0] == '-') {
-      value = static_cast<T>(value);
+      value &= iMax;
       printwarning("[Reflector] Applying "
                    << input
                    << " to an unsigned integer, casting to: " << value);
@@ -454,17 +457,26 @@ SetReflectedMember(reflType reflValue, es::string_view value, char *objAddr) {
     }
   }
   case REFType::BitFieldMember: {
-    uint64 &output = *reinterpret_cast<uint64 *>(objAddr);
+    // storage can be shorter than 64 bits
+    const size_t usedBytes = (reflValue.offset + reflValue.subSize + 7) / 8;
+    uint64 output = 0;
+    memcpy(&output, objAddr, usedBytes);
     auto doStuff = [&](auto &&insertVal) {
       LimitProxy<typename std::remove_reference<decltype(insertVal)>::type>
           proxy{reflValue.subSize};
       auto err = SetNumber(value, insertVal, std::true_type{}, proxy);
+
+      if (err == Reflector::ErrorType::InvalidFormat) {
+        return err;
+      }
+
       BitMember bfMember;
       bfMember.size = reflValue.subSize;
       bfMember.position = reflValue.offset;
       auto mask = bfMember.GetMask<uint64>();
       output &= ~mask;
-      output |= insertVal.value << reflValue.offset;
+      output |= (static_cast<uint64>(insertVal.value) << reflValue.offset) & mask;
+      memcpy(objAddr, &output, usedBytes);
       return err;
     };
 
@@ -794,7 +806,9 @@ static std::string GetReflectedPrimitive(const char *objAddr, reflType type) {
     return _tmpBuffer;
   }
   case REFType::BitFieldMember: {
-    uint64 output = *reinterpret_cast<const uint64 *>(objAddr);
+    const size_t usedBytes = (type.offset + type.subSize + 7) / 8;
+    uint64 output = 0;
+    memcpy(&output, objAddr, usedBytes);
     BitMember bfMember;
     bfMember.size = type.subSize;
     bfMember.position = type.offset;
-- 
2.43.0


From efcf8ebd05dc7ff33f814a1a32b596b657588414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 07/89] fix: setting one array item or flag stays inside the
 member

---
 datas/reflector.cpp | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 8ab85e6..a09aec8 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -313,6 +313,34 @@ static Reflector::ErrorType SetEnumFlags(es::string_view input, char *objAddr,
   return errType;
 }
 
+static Reflector::ErrorType SetEnumFlag(es::string_view input, char *objAddr,
+                                        uint16 size, size_t flag) {
+  if (flag >= size * 8u) {
+    printerror("[Reflector] Flag index " << flag << " is out of range.");
+    return Reflector::ErrorType::OutOfRange;
+  }
+
+  bool enabled;
+  auto errType = SetBoolean(es::SkipStartWhitespace(input), enabled);
+
+  if (errType != Reflector::ErrorType::None) {
+    return errType;
+  }
+
+  uint64 eValue = 0;
+  memcpy(&eValue, objAddr, size);
+
+  if (enabled) {
+    eValue |= 1ULL << flag;
+  } else {
+    eValue &= ~(1ULL << flag);
+  }
+
+  memcpy(objAddr, &eValue, size);
+
+  return Reflector::ErrorType::None;
+}
+
 static Reflector::ErrorType SetReflectedArray(char startBrace, char endBrace,
                                               char *objAddr,
                                               es::string_view value,
@@ -519,6 +547,17 @@ Reflector::ErrorType Reflector::SetReflectedValue(reflType type,
                                                   size_t subID) {
   auto inst = GetReflectedInstance();
   char *thisAddr = static_cast<char *>(inst.instance);
+
+  if (type.type == REFType::EnumFlags) {
+    return SetEnumFlag(value, thisAddr + type.offset, type.subSize, subID);
+  }
+
+  if (subID >= type.numItems) {
+    printerror("[Reflector] Too many array elements, " << type.numItems
+                                                       << " expected.");
+    return ErrorType::OutOfRange;
+  }
+
   thisAddr += type.offset + type.subSize * subID;
   type.type = type.subType;
 
-- 
2.43.0


From fc966c7938a49a7503574af8e63db71361c333a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 08/89] fix: setting one element of a vector or flags item in
 an array

---
 datas/reflector.cpp | 47 ++++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index a09aec8..03a5dee 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -575,35 +575,46 @@ Reflector::ErrorType Reflector::SetReflectedValue(reflType type,
                                                   es::string_view value,
                                                   size_t subID,
                                                   size_t element) {
-  bool enumFlags = false;
+  if (type.subType == REFType::EnumFlags) {
+    if (subID >= type.numItems) {
+      printerror("[Reflector] Too many array elements, " << type.numItems
+                                                         << " expected.");
+      return ErrorType::OutOfRange;
+    }
 
-  switch (type.subType) {
-  /*case REFType::EnumFlags:
-    enumFlags = true;*/
-  case REFType::Vector:
-    break;
-  default:
+    auto inst = GetReflectedInstance();
+    return SetEnumFlag(value,
+                       static_cast<char *>(inst.instance) + type.offset +
+                           type.subSize * subID,
+                       type.subSize, element);
+  }
+
+  if (type.subType != REFType::Vector) {
     return ErrorType::InvalidDestination;
   }
 
+  if (subID >= type.numItems) {
+    printerror("[Reflector] Too many array elements, " << type.numItems
+                                                       << " expected.");
+    return ErrorType::OutOfRange;
+  }
+
   auto inst = GetReflectedInstance();
   char *thisAddr = static_cast<char *>(inst.instance);
   thisAddr += type.offset + type.subSize * subID;
 
-  if (!enumFlags) {
-    _DecomposedVectorHash dec = {type.typeHash};
-    type.subSize = dec.size;
-
-    if (element >= dec.size) {
-      printerror("[Reflector] Too many vector elements, " << dec.size
-                                                          << " expected.");
-      return ErrorType::OutOfRange;
-    }
+  _DecomposedVectorHash dec = {type.typeHash};
+  type.subSize = dec.size;
 
-    thisAddr += dec.size * element;
-    type.type = dec.type;
+  if (element >= dec.numItems) {
+    printerror("[Reflector] Too many vector elements, " << dec.numItems
+                                                        << " expected.");
+    return ErrorType::OutOfRange;
   }
 
+  thisAddr += dec.size * element;
+  type.type = dec.type;
+
   return SetReflectedMember(type, value, thisAddr);
 }
 
-- 
2.43.0


From 42f748b70711a638c74cc2e56ba2aab26dbeb24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 09/89] fix: typed setters reach the first item of arrays and
 vectors

---
 datas/reflector.cpp | 78 ++++++++++++++++++++++-----------------------
 1 file changed, 39 insertions(+), 39 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 03a5dee..e2bbe4b 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -624,22 +624,22 @@ Reflector::SetReflectedValueInt(reflType reflValue, int64 value, size_t subID) {
   char *thisAddr = static_cast<char *>(inst.instance);
   thisAddr = thisAddr + reflValue.offset;
 
-  if (subID) {
-    switch (reflValue.type) {
-    case REFType::Array:
-    case REFType::Vector:
-    case REFType::ArrayClass:
-      if (subID >= reflValue.numItems)
-        return Reflector::ErrorType::OutOfRange;
-      thisAddr += subID * reflValue.subSize;
-      break;
-    default:
+  REFType cType = reflValue.type;
+
+  switch (reflValue.type) {
+  case REFType::Array:
+  case REFType::Vector:
+  case REFType::ArrayClass:
+    if (subID >= reflValue.numItems)
+      return Reflector::ErrorType::OutOfRange;
+    thisAddr += subID * reflValue.subSize;
+    cType = reflValue.subType;
+    break;
+  default:
+    if (subID)
       return Reflector::ErrorType::OutOfRange;
-    }
   }
 
-  REFType cType = subID ? reflValue.subType : reflValue.type;
-
   if (cType != REFType::Integer)
     return Reflector::ErrorType::InvalidDestination;
 
@@ -655,22 +655,22 @@ Reflector::ErrorType Reflector::SetReflectedValueUInt(reflType reflValue,
   char *thisAddr = static_cast<char *>(inst.instance);
   thisAddr = thisAddr + reflValue.offset;
 
-  if (subID) {
-    switch (reflValue.type) {
-    case REFType::Array:
-    case REFType::Vector:
-    case REFType::ArrayClass:
-      if (subID >= reflValue.numItems)
-        return Reflector::ErrorType::OutOfRange;
-      thisAddr += subID * reflValue.subSize;
-      break;
-    default:
+  REFType cType = reflValue.type;
+
+  switch (reflValue.type) {
+  case REFType::Array:
+  case REFType::Vector:
+  case REFType::ArrayClass:
+    if (subID >= reflValue.numItems)
+      return Reflector::ErrorType::OutOfRange;
+    thisAddr += subID * reflValue.subSize;
+    cType = reflValue.subType;
+    break;
+  default:
+    if (subID)
       return Reflector::ErrorType::OutOfRange;
-    }
   }
 
-  REFType cType = subID ? reflValue.subType : reflValue.type;
-
   if (cType != REFType::UnsignedInteger)
     return Reflector::ErrorType::InvalidDestination;
 
@@ -686,22 +686,22 @@ Reflector::ErrorType Reflector::SetReflectedValueFloat(reflType reflValue,
   char *thisAddr = static_cast<char *>(inst.instance);
   thisAddr = thisAddr + reflValue.offset;
 
-  if (subID) {
-    switch (reflValue.type) {
-    case REFType::Array:
-    case REFType::Vector:
-    case REFType::ArrayClass:
-      if (subID >= reflValue.numItems)
-        return Reflector::ErrorType::OutOfRange;
-      thisAddr += subID * reflValue.subSize;
-      break;
-    default:
+  REFType cType = reflValue.type;
+
+  switch (reflValue.type) {
+  case REFType::Array:
+  case REFType::Vector:
+  case REFType::ArrayClass:
+    if (subID >= reflValue.numItems)
+      return Reflector::ErrorType::OutOfRange;
+    thisAddr += subID * reflValue.subSize;
+    cType = reflValue.subType;
+    break;
+  default:
+    if (subID)
       return Reflector::ErrorType::OutOfRange;
-    }
   }
 
-  REFType cType = subID ? reflValue.subType : reflValue.type;
-
   if (cType != REFType::FloatingPoint)
     return Reflector::ErrorType::InvalidDestination;
 
-- 
2.43.0


From 23eecb70b33e0b1e831c3e7e258a0b20089f1e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 10/89] fix: reading flags above the 31st

---
 datas/reflector.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index e2bbe4b..0b7c8f8 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -985,11 +985,11 @@ std::string Reflector::GetReflectedValue(size_t id, size_t subID) const {
       return "";
     }
 
-    uint64 eValue;
+    uint64 eValue = 0;
 
     memcpy(reinterpret_cast<char *>(&eValue), objAddr, reflValue.subSize);
 
-    return (eValue & (1 << subID)) ? "true" : "false";
+    return (eValue & (1ULL << subID)) ? "true" : "false";
   }
 
   default:
@@ -1033,12 +1033,12 @@ std::string Reflector::GetReflectedValue(size_t id, size_t subID,
       return "";
     }
 
-    uint64 eValue;
+    uint64 eValue = 0;
 
     memcpy(reinterpret_cast<char *>(&eValue),
            objAddr + reflValue.subSize * subID, reflValue.subSize);
 
-    return (eValue & (1 << element)) ? "true" : "false";
+    return (eValue & (1ULL << element)) ? "true" : "false";
   }
 
   default:
-- 
2.43.0


From c363e8b043a24c5b944317476857d6ffa5923525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 11/89] fix: unnamed flags leave no separator in the printed
 value

---
 datas/reflector.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 0b7c8f8..775bbff 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -757,11 +757,13 @@ static std::string PrintEnumFlags(const char *objAddr, JenHash hash,
 
   for (size_t t = 0; t < numBits; t++) {
     if (eValue & (1ULL << t)) {
-      if (result.size())
-        result.append(" | ");
-
       try {
-        result.append(PrintEnumValue(hash, t, &rEnumFallback));
+        auto flagName = PrintEnumValue(hash, t, &rEnumFallback);
+
+        if (result.size())
+          result.append(" | ");
+
+        result.append(flagName);
       } catch (const std::out_of_range &) {
         printerror("[Reflector] Unregistered enum hash: " << hash.raw());
         break;
-- 
2.43.0


From cecbd6221ed9142130cefb9c39ce816a8b81924e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:00 +0000
Subject: [PATCH 12/89] fix: negative enumerators are printed by name

---
 datas/reflector.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 775bbff..173a960 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -718,7 +718,8 @@ Reflector::ErrorType Reflector::SetReflectedValueFloat(reflType reflValue,
 }
 
 static es::string_view PrintEnumValue(JenHash hash, uint64 value,
-                                      ReflectedEnum **rEnumFallback = nullptr) {
+                                      ReflectedEnum **rEnumFallback = nullptr,
+                                      uint64 mask = ~0ULL) {
   ReflectedEnum &rEnum = rEnumFallback && *rEnumFallback
                              ? **rEnumFallback
                              : REFEnumStorage.at(hash);
@@ -728,7 +729,8 @@ static es::string_view PrintEnumValue(JenHash hash, uint64 value,
 
   const uint64 *valuesEnd = rEnum.values + rEnum.size();
   const uint64 *foundItem = std::find_if(
-      rEnum.values, valuesEnd, [value](uint64 item) { return item == value; });
+      rEnum.values, valuesEnd,
+      [value, mask](uint64 item) { return (item & mask) == value; });
 
   if (foundItem == valuesEnd) {
     throw std::range_error("[Reflector] Enum value not found: " +
@@ -743,7 +745,8 @@ static std::string PrintEnum(const char *objAddr, JenHash hash, uint16 elSize) {
 
   memcpy(reinterpret_cast<char *>(&eValue), objAddr, elSize);
 
-  return PrintEnumValue(hash, eValue);
+  // values of negative items are extended to 64 bits
+  return PrintEnumValue(hash, eValue, nullptr, ~0ULL >> (64 - elSize * 8));
 }
 
 static std::string PrintEnumFlags(const char *objAddr, JenHash hash,
-- 
2.43.0


From 59979bfe99b1aed9e69c416e446ec14b67883c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 13/89] fix: blank trailing array elements are not stored
 behind the array

---
 datas/reflector.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 173a960..98f7f7a 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -410,6 +410,11 @@ static Reflector::ErrorType SetReflectedArray(char startBrace, char endBrace,
         return Reflector::ErrorType::OutOfRange;
       }
 
+      // blanks behind the last element
+      if (curElement >= reflValue.numItems) {
+        break;
+      }
+
       SetReflectedMember(subVal, cValue,
                          objAddr + (reflValue.subSize * curElement));
       curIter = it + 1;
-- 
2.43.0


From 327f96c3847db6770be1193fb1abc5bdebc9e018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 14/89] fix: a closing quote ends the quoted part of an array
 element

---
 datas/reflector.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 98f7f7a..efcd868 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -386,10 +386,10 @@ static Reflector::ErrorType SetReflectedArray(char startBrace, char endBrace,
   for (auto it = value.begin(); it != value.end(); it++) {
     const bool isEnding = std::next(it) == value.end();
 
-    if ((*it == ']' || *it == '"' || *it == ')' || *it == '}') && localScope)
+    if ((*it == ']' || *it == '"' || *it == ')' || *it == '}') && localScope) {
       localScope = false;
-
-    if (localScope || *it == '[' || *it == '"' || *it == '(' || *it == '{') {
+    } else if (localScope || *it == '[' || *it == '"' || *it == '(' ||
+               *it == '{') {
       localScope = true;
       continue;
     }
-- 
2.43.0


From aab822981f3987f0df2d8ca15e6b0f820000aae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 15/89] fix: an empty name finds no member without an alias

---
 datas/reflector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index efcd868..296b4e5 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -35,7 +35,8 @@ const reflType *Reflector::GetReflectedType(const JenHash hash) const {
     if (inst->types[t].valueNameHash == hash)
       return GetReflectedType(t);
 
-  if (inst->typeAliasHashes)
+  // items without an alias have an empty hash
+  if (inst->typeAliasHashes && hash != JenHash{})
     for (size_t t = 0; t < _ntypes; t++)
       if (inst->typeAliasHashes[t] == hash)
         return GetReflectedType(t);
-- 
2.43.0


From 30cd5a6708cf55b6f26eefab076d426ae562cae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 16/89] fix: formatted pairs of classes without aliases and
 descriptions

---
 datas/internal/reflector.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datas/internal/reflector.inl b/datas/internal/reflector.inl
index e1ef85e..3a09182 100644
--- a/datas/internal/reflector.inl
+++ b/datas/internal/reflector.inl
@@ -214,14 +214,16 @@ Reflector::GetReflectedPair(size_t id, const KVPairFormat &settings) const {
   const auto refInt = GetReflectedInstance().rfStatic;
 
   if (UseNames()) {
-    if (settings.aliasName && refInt->typeAliases[id]) {
+    if (settings.aliasName && refInt->typeAliases &&
+        refInt->typeAliases[id]) {
       retval.name = refInt->typeAliases[id];
     } else {
       retval.name = refInt->typeNames[id];
     }
   }
 
-  if (settings.formatValue && !refInt->typeDescs[id].part1.empty()) {
+  if (settings.formatValue && refInt->typeDescs &&
+      !refInt->typeDescs[id].part1.empty()) {
     retval.value =
         refInt->typeDescs[id].part1.to_string() + ' ' + GetReflectedValue(id);
 
-- 
2.43.0


From fc7cf39daa0d87917ca27947de0eda40a7d32891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 17/89] fix: bit field members reflected in another order are
 read by name

---
 datas/internal/reflector_class.hpp | 4 ++--
 datas/internal/reflector_type.hpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/datas/internal/reflector_class.hpp b/datas/internal/reflector_class.hpp
index 2c6f912..7329948 100644
--- a/datas/internal/reflector_class.hpp
+++ b/datas/internal/reflector_class.hpp
@@ -223,11 +223,11 @@ constexpr size_t _GetReflDescPart(const char (&value)[n], bool part2 = false) {
   VA_NARGS_EVAL(_REFLECTOR_START_VER3_(_REFLECTOR_ADDN, __VA_ARGS__))
 
 #define _REFLECTOR_ADDB(classname, _id, mvalue)                                \
-  BuildBFReflType<classname, mvalue>(JenHash(#mvalue)),
+  BuildBFReflType<classname, mvalue>(JenHash(#mvalue), _id),
 
 #define _EXT_REFLECTOR_ADDB(classname, _id, value)                             \
   BuildBFReflType<classname, _REFLECTOR_EXTRACT_0 value>(                      \
-      JenHash(_REFLECTOR_EXTRACT_0S value)),
+      JenHash(_REFLECTOR_EXTRACT_0S value), _id),
 
 #define _REFLECTOR_START_VERBITFIELD(classname, numFlags, ...)                 \
   VA_NARGS_EVAL(_REFLECTOR_START_VER##numFlags##_(_REFLECTOR_ADDB, classname,  \
diff --git a/datas/internal/reflector_type.hpp b/datas/internal/reflector_type.hpp
index 64f4ef8..b2bd73e 100644
--- a/datas/internal/reflector_type.hpp
+++ b/datas/internal/reflector_type.hpp
@@ -138,13 +138,13 @@ reflType BuildReflType(JenHash classHash, uint8 index, size_t offset) {
 }
 
 template <class main_class, class declmem>
-reflType BuildBFReflType(JenHash hash) {
+reflType BuildBFReflType(JenHash hash, uint8 index) {
   constexpr auto item = main_class::parent::Get(declmem::index);
 
   return reflType{REFType::BitFieldMember,
                   RefGetType<typename main_class::value_type>(),
                   static_cast<decltype(reflType::subSize)>(item.size),
-                  declmem::index,
+                  index,
                   0,
                   static_cast<decltype(reflType::offset)>(item.position),
                   hash,
-- 
2.43.0


From 009faae249b65aed99135aa5b2e8cb9b90875077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 18/89] fix: positive floats too small for a member do not
 become negative

---
 datas/reflector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 296b4e5..4ec9d3f 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -75,7 +75,7 @@ static Reflector::ErrorType SetNumber(const std::string &input, T &output,
 
     double fVal = atof(input.c_str());
 
-    if (fVal > 0)
+    if (!std::signbit(fVal))
       output = fVal > 1.0 ? fMax : fMin;
     else
       output = fVal < -1.0 ? -fMax : -fMin;
-- 
2.43.0


From 96cfc9b1d5a0f945d3262ea100b0d0e0d93fa132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:29 +0000
Subject: [PATCH 19/89] fix: saving classes nested in nested classes

---
 datas/reflector_io.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index d142d75..cc33d65 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -422,8 +422,7 @@ public:
   using Reflector::GetReflectedType;
 };
 
-static int SaveClass(const Reflector &ri, ReflectedInstanceFriend inst,
-                     BinWritterRef wr);
+static int SaveClass(ReflectedInstanceFriend inst, BinWritterRef wr);
 
 static int WriteDataItem(const Reflector &ri, BinWritterRef wr,
                          const char *objAddr, reflType type) {
@@ -488,15 +487,15 @@ static int WriteDataItem(const Reflector &ri, BinWritterRef wr,
   case REFType::Class: {
     auto sri = static_cast<ReflectedInstanceFriend &&>(
         ri.GetReflectedSubClass(type.ID, type.numItems));
-    return SaveClass(ri, sri, wr);
+    return SaveClass(sri, wr);
   }
   default:
     return 1;
   }
 }
 
-static int SaveClass(const Reflector &ri, ReflectedInstanceFriend inst,
-                     BinWritterRef wr) {
+static int SaveClass(ReflectedInstanceFriend inst, BinWritterRef wr) {
+  ReflectorPureWrap ri(inst);
   auto refData = inst.Refl();
   const buint128 numItems = refData->nTypes;
   const char *thisAddr = static_cast<const char *>(inst.Instance());
@@ -535,7 +534,7 @@ int ReflectorBinUtil::Save(const Reflector &ri, BinWritterRef wr) {
 
   wr.Write(refData->classHash);
 
-  return SaveClass(ri, inst, wr);
+  return SaveClass(inst, wr);
 }
 
 static int LoadClass(ReflectedInstanceFriend inst, BinReaderRef rd);
-- 
2.43.0


From cca6f2e3ae9ba1a9c333159f4d984fe22e77900d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:10 +0000
Subject: [PATCH 20/89] fix: binary saved objects load through byte swapping
 streams

---
 datas/reflector_io.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index cc33d65..4a008f2 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -532,6 +532,8 @@ int ReflectorBinUtil::Save(const Reflector &ri, BinWritterRef wr) {
       static_cast<ReflectedInstanceFriend &&>(rif.GetReflectedInstance());
   auto refData = inst.Refl();
 
+  // Data are always little endian
+  wr.SwapEndian(false);
   wr.Write(refData->classHash);
 
   return SaveClass(inst, wr);
@@ -661,6 +663,8 @@ int ReflectorBinUtil::Load(Reflector &ri, BinReaderRef rd) {
   auto refData = inst.Refl();
   JenHash clsHash;
 
+  // Data are always little endian
+  rd.SwapEndian(false);
   rd.Push();
   rd.Read(clsHash);
 
-- 
2.43.0


From 44576f6fecc8c00f60d65aa4b81fd584dd8f59ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:13 +0000
Subject: [PATCH 21/89] fix: members that could not be loaded are reported

---
 datas/reflector_io.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index 4a008f2..da2b4a2 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -645,9 +645,11 @@ static int LoadClass(ReflectedInstanceFriend inst, BinReaderRef rd) {
       continue;
     }
 
-    errType = LoadDataItem(ri, rf, thisAddr + cType->offset, *cType);
+    const int itemErr =
+        LoadDataItem(ri, rf, thisAddr + cType->offset, *cType);
 
-    if (errType) {
+    if (itemErr) {
+      errType = itemErr;
       rd.Pop();
       rd.Skip(valueChunkSize);
     }
-- 
2.43.0


From e9590351bfb7850628ca9710c958852c3a4835ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:09 +0000
Subject: [PATCH 22/89] fix: alias hashes are saved and loaded with class
 databases

---
 datas/reflector_io.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index da2b4a2..21033c6 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -148,7 +148,7 @@ int ReflectorIO::Load(BinReaderRef rd) {
     }
 
     if (itemIO->aliassesHashesPtr) {
-      itemPtrsBegin[3] = bufferStart + itemIO->aliassesHashesPtr;
+      itemPtrsBegin[4] = bufferStart + itemIO->aliassesHashesPtr;
     } else {
       itemPtrsBegin[4] = 0;
     }
@@ -405,6 +405,7 @@ int ReflectorIO::Save(BinWritterRef wr) {
   classnamesFixups.WriteFixups();
   aliasesFixups.WriteFixups();
   descsFixups.WriteFixups();
+  aliasHashesFixups.WriteFixups();
   wr.Seek(0, std::ios_base::end);
 
   return 0;
-- 
2.43.0


From 85d705d49fda873d20579e526c3b57f20559c98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:12 +0000
Subject: [PATCH 23/89] fix: class databases can be saved behind other data

---
 datas/reflector_io.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index 21033c6..175c231 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -213,8 +213,9 @@ int ReflectorIO::Save(BinWritterRef wr) {
   ReflectorIOHeader hdr;
   hdr.numClasses = static_cast<uint32>(classes.size());
   hdr.numEnums = static_cast<uint32>(enums.size());
+  const size_t hdrBegin = wr.Push();
   wr.Write(hdr);
-  wr.SetRelativeOrigin(wr.Tell(), false);
+  wr.SetRelativeOrigin(wr.Push(), false);
 
   Fixups itemFixups(wr);
   Fixups itemStringsFixups(wr);
@@ -398,7 +399,7 @@ int ReflectorIO::Save(BinWritterRef wr) {
   }
 
   hdr.bufferSize = static_cast<uint32>(wr.Tell());
-  wr.ResetRelativeOrigin();
+  wr.SetRelativeOrigin(hdrBegin);
   wr.Write(hdr);
   itemFixups.WriteFixups();
   itemStringsFixups.WriteFixups();
-- 
2.43.0


From 689ce79a0a0ed530163f54eb54bd9b04131c163d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:15 +0000
Subject: [PATCH 24/89] fix: loading a class database replaces the former one

---
 datas/reflector_io.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index 175c231..bf402fd 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -93,6 +93,8 @@ int ReflectorIO::Load(BinReaderRef rd) {
   if (hdr.version > hdr.VERSION)
     return 2;
 
+  classes.clear();
+  enums.clear();
   rd.ReadContainer(data, hdr.bufferSize);
 
   const reflectorStatic *classesStart =
-- 
2.43.0


From 67720105124429759c046743ee707cb4d02d51cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:03 +0000
Subject: [PATCH 25/89] fix: dots in folders do not start an extension

A file without an extension in a folder with a dot in its name had its
file name end before it began. Loading an empty path kept the parts of the
former one.
---
 datas/fileinfo.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/datas/fileinfo.hpp b/datas/fileinfo.hpp
index 9525952..c3b08d5 100644
--- a/datas/fileinfo.hpp
+++ b/datas/fileinfo.hpp
@@ -30,8 +30,8 @@ public:
 
 private:
   string_type fullPath;
-  size_t endFolder;
-  size_t lastDot;
+  size_t endFolder = 0;
+  size_t lastDot = 0;
 
 public:
   FileInfo(stringref_type input) { Load(input); }
@@ -40,9 +40,6 @@ public:
   void Load(stringref_type input) {
     fullPath = input;
 
-    if (!fullPath.size())
-      return;
-
     for (auto &c : fullPath)
       if (c == '\\')
         c = '/';
@@ -55,7 +52,7 @@ public:
     else
       endFolder = 0;
 
-    if (!lastDot || lastDot == fullPath.npos)
+    if (!lastDot || lastDot == fullPath.npos || lastDot < endFolder)
       lastDot = fullPath.size();
   }
 
-- 
2.43.0


From cf6fc4474ca50cc4cf768e86fde1b09425bac7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:09 +0000
Subject: [PATCH 26/89] fix: empty and wide paths can be exploded

---
 datas/fileinfo.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/fileinfo.hpp b/datas/fileinfo.hpp
index c3b08d5..aa43076 100644
--- a/datas/fileinfo.hpp
+++ b/datas/fileinfo.hpp
@@ -69,9 +69,9 @@ public:
 
   explode_type Explode() const {
     explode_type resVal;
-    const char *lastOffset = fullPath.data();
+    const T *lastOffset = fullPath.data();
     const size_t fullSize = fullPath.size();
-    const char *pathEnd = std::prev(fullPath.end()).operator->() + 1;
+    const T *pathEnd = lastOffset + fullSize;
 
     if (*lastOffset == '/')
       lastOffset++;
-- 
2.43.0


From 64e71f05b2178b231be6deb165b7eb9b54df2d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:14 +0000
Subject: [PATCH 27/89] fix: a branch is caught at a whole folder name

The first folder of the path was found within longer names, a branch at the
start of the folder threw and a path without leading separator lost one.
---
 datas/fileinfo.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/datas/fileinfo.hpp b/datas/fileinfo.hpp
index aa43076..2751a38 100644
--- a/datas/fileinfo.hpp
+++ b/datas/fileinfo.hpp
@@ -90,12 +90,24 @@ public:
 
   string_type CatchBranch(const stringref_type &path) const {
     explode_type exVec = Explode();
-    const size_t found = path.find(exVec[0]);
+    size_t found = path.npos;
+
+    if (!exVec.empty() && !exVec[0].empty()) {
+      auto isSplit = [&](size_t at) {
+        return at >= path.size() || path[at] == '/' || path[at] == '\\';
+      };
+      found = path.find(exVec[0]);
+
+      while (found != path.npos && ((found && !isSplit(found - 1)) ||
+                                    !isSplit(found + exVec[0].size())))
+        found = path.find(exVec[0], found + 1);
+    }
 
     if (found == path.npos)
       return string_type(path).append(GetFilenameExt());
-    else
-      return string_type(path.begin(), found - 1).append(GetFullPath());
+
+    return string_type(path.data(), found)
+        .append(fullPath, fullPath[0] == '/' ? 1 : 0, fullPath.npos);
   }
 };
 
-- 
2.43.0


From 52e7e13221eb3923bc6c47d7aa0f0f7bdddf84e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:40 +0000
Subject: [PATCH 28/89] fix: string views find whole matches, at their end too

The first character of longer patterns was not compared and a match at the
end of the view was missed.
---
 datas/internal/string_view.inl | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/datas/internal/string_view.inl b/datas/internal/string_view.inl
index 1322ba7..eb0e954 100644
--- a/datas/internal/string_view.inl
+++ b/datas/internal/string_view.inl
@@ -294,21 +294,13 @@ namespace es {
   inline typename basic_string_view<CharT, Traits>::size_type
   basic_string_view<CharT, Traits>::find(basic_string_view v,
                                          size_type pos) const {
-    if (v.empty() || v.size() > m_size)
+    if (v.size() > m_size)
       return npos;
 
     const size_type max_index = m_size - v.size();
 
-    for (size_type i = pos; i < max_index; ++i) {
-      size_type j = v.size() - 1;
-
-      if (!j) {
-        j = m_str[i] == v[j] ? 0 : 1;
-      } else {
-        for (;j && v[j] == m_str[i + j]; j--);
-      }
-
-      if (!j)
+    for (size_type i = pos; i <= max_index; ++i) {
+      if (!Traits::compare(m_str + i, v.m_str, v.size()))
         return i;
     }
 
-- 
2.43.0


From 8d68c17ef11f38260ee219acf84d28a5bedc66a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:54 +0000
Subject: [PATCH 29/89] fix: rfind of string views finds the last match

Patterns were compared backwards, matches at the end were missed and
patterns longer than the view read outside of it.
---
 datas/internal/string_view.inl | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/datas/internal/string_view.inl b/datas/internal/string_view.inl
index eb0e954..e88a8d1 100644
--- a/datas/internal/string_view.inl
+++ b/datas/internal/string_view.inl
@@ -342,16 +342,14 @@ namespace es {
                                             size_type pos )
     const
   {
+    if (v.size() > m_size)
+      return npos;
+
     const size_type max_index = m_size - v.size();
 
-    for( size_type i = std::min(max_index-1,pos); i != npos; --i ) {
-      size_type j = 0;
-      for( ; j < v.size(); ++j ) {
-        if( v[j] != m_str[i-j] ) {
-          break;
-        }
-      }
-      if(j==v.size()) return i;
+    for( size_type i = std::min(max_index,pos); i != npos; --i ) {
+      if (!Traits::compare(m_str + i, v.m_str, v.size()))
+        return i;
     }
     return npos;
   }
-- 
2.43.0


From 1d84a5b8b41e3155ac777c23f2c86e4a56c98c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:10 +0000
Subject: [PATCH 30/89] fix: find_*_not_of of string views compare with every
 character

Only the first character of the set counted, empty sets matched nothing and
empty views were read when looking from a position.
---
 datas/internal/string_view.inl | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/datas/internal/string_view.inl b/datas/internal/string_view.inl
index e88a8d1..8e42085 100644
--- a/datas/internal/string_view.inl
+++ b/datas/internal/string_view.inl
@@ -434,6 +434,9 @@ namespace es {
                                                    size_type pos )
     const
   {
+    if (empty())
+      return npos;
+
     for( size_type i = std::min(m_size-1,pos); i >= 0 && i != npos; --i ) {
       for( size_type j = 0; j < v.size(); ++j ) {
         if( v[j] == m_str[i] ) {
@@ -481,12 +484,10 @@ namespace es {
     const
   {
     for( size_type i = pos; i < m_size; ++i ) {
-      for( size_type j = 0; j < v.size(); ++j ) {
-        if( v[j] == m_str[i] ) {
-          break;
-        }
+      size_type j = 0;
+      for( ; j < v.size() && v[j] != m_str[i]; ++j );
+      if( j == v.size() )
         return i;
-      }
     }
     return npos;
   }
@@ -526,13 +527,14 @@ namespace es {
                                                        size_type pos )
     const
   {
+    if (empty())
+      return npos;
+
     for( size_type i = std::min(m_size-1,pos); i != npos; --i ) {
-      for( size_type j = 0; j < v.size(); ++j ) {
-        if( v[j] == m_str[i] ) {
-          break;
-        }
+      size_type j = 0;
+      for( ; j < v.size() && v[j] != m_str[i]; ++j );
+      if( j == v.size() )
         return i;
-      }
     }
     return npos;
   }
-- 
2.43.0


From 997dab31e5c1221656f1d56731260f65c8fa9ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:24 +0000
Subject: [PATCH 31/89] fix: string views copy no more than asked for

One more character than asked for was copied, nothing by default, and the
empty part at the end could neither be copied nor taken by substr.
---
 datas/internal/string_view.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datas/internal/string_view.inl b/datas/internal/string_view.inl
index 8e42085..2fd2acd 100644
--- a/datas/internal/string_view.inl
+++ b/datas/internal/string_view.inl
@@ -212,9 +212,9 @@ namespace es {
                                            size_type pos )
     const
   {
-    if(pos >= m_size) throw std::out_of_range("Index out of range in basic_string_view::copy");
+    if(pos > m_size) throw std::out_of_range("Index out of range in basic_string_view::copy");
 
-    const size_type rcount = std::min(m_size - pos,count+1);
+    const size_type rcount = std::min(m_size - pos,count);
     std::copy( m_str + pos, m_str + pos + rcount, dest);
     return rcount;
   }
@@ -227,7 +227,7 @@ namespace es {
   {
     const size_type max_length = pos > m_size ? 0 : m_size - pos;
 
-    return pos < m_size ? basic_string_view<CharT,Traits>( m_str + pos, len > max_length ? max_length : len ) : throw std::out_of_range("Index out of range in basic_string_view::substr");
+    return pos <= m_size ? basic_string_view<CharT,Traits>( m_str + pos, len > max_length ? max_length : len ) : throw std::out_of_range("Index out of range in basic_string_view::substr");
   }
 
   //--------------------------------------------------------------------------
-- 
2.43.0


From 65c2a58bce6fbb54450d79c73c918c95256f07a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:09 +0000
Subject: [PATCH 32/89] fix: sockets and block devices are not folders

Their file types share bits with the type of folders.
---
 datas/internal/stat_ix.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/internal/stat_ix.inl b/datas/internal/stat_ix.inl
index d762f3a..870a8be 100644
--- a/datas/internal/stat_ix.inl
+++ b/datas/internal/stat_ix.inl
@@ -20,9 +20,9 @@
 FileType_e FileType(const std::string &path) {
   struct stat s;
   if (!stat(path.data(), &s)) {
-    if (s.st_mode & S_IFDIR) {
+    if (S_ISDIR(s.st_mode)) {
       return FileType_e::Directory;
-    } else if (s.st_mode & S_IFREG) {
+    } else if (S_ISREG(s.st_mode)) {
       return FileType_e::File;
     } else {
       return FileType_e::Invalid;
-- 
2.43.0


From 62c7ee774c862feb0ce374bbfd2f1f9871230ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:11 +0000
Subject: [PATCH 33/89] fix: folders with names ending in a quote or backslash
 are scanned

The adjustments of the given folder were made to the names of found ones.
---
 datas/directory_scanner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/directory_scanner.cpp b/datas/directory_scanner.cpp
index 5b41e83..788abdc 100644
--- a/datas/directory_scanner.cpp
+++ b/datas/directory_scanner.cpp
@@ -72,7 +72,7 @@ void DirectoryScanner::Scan(std::string dir) {
     subFile += miniFile;
 
     if (cFile->d_type == DT_DIR) {
-      Scan(subFile);
+      Scan(subFile + '/');
     } else if (IsFilteredFile(miniFile)) {
       files.push_back(subFile);
     }
-- 
2.43.0


From e8a83be3a7db188d91550b9d59b9f2618db831d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:02 +0000
Subject: [PATCH 34/89] fix: moved ZIP files are read from their own buffer

---
 datas/zip_vfs.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/datas/zip_vfs.hpp b/datas/zip_vfs.hpp
index f8ebbae..774f056 100644
--- a/datas/zip_vfs.hpp
+++ b/datas/zip_vfs.hpp
@@ -28,6 +28,14 @@ struct ZIPVFSFile {
   operator BinReaderRef() const { return reader; }
 
   ZIPVFSFile(std::string &&str) : buffer(str), reader(buffer){};
+
+  // Reader must refer to the buffer of this object
+  ZIPVFSFile(ZIPVFSFile &&o) : buffer(std::move(o.buffer)), reader(buffer) {}
+  ZIPVFSFile &operator=(ZIPVFSFile &&o) {
+    buffer = std::move(o.buffer);
+    reader = buffer;
+    return *this;
+  }
 };
 
 class ZIPVFS : std::map<std::string, std::pair<size_t, size_t>> {
-- 
2.43.0


From 792129a178521765657b6bf97468e95aeca2cd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:04 +0000
Subject: [PATCH 35/89] fix: ZIP archives with files of 2 GB and more

---
 datas/zip_vfs.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datas/zip_vfs.hpp b/datas/zip_vfs.hpp
index 774f056..1df0af4 100644
--- a/datas/zip_vfs.hpp
+++ b/datas/zip_vfs.hpp
@@ -102,7 +102,8 @@ private:
         rd.ReadContainer(path, hdr.fileNameSize);
         rd.Skip(hdr.extraFieldSize);
         emplace(std::move(path), std::make_pair(rd.Tell(), hdr.compressedSize));
-        rd.Skip(hdr.compressedSize);
+        // Skip takes int, that's not enough for large files
+        rd.Seek(rd.Tell() + hdr.compressedSize);
       }();
       break;
     }
-- 
2.43.0


From bd5ddc0129f2d80bfa207712afcbde463ccfeefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:06 +0000
Subject: [PATCH 36/89] fix: extensible data of ZIP64 directories is skipped

---
 datas/zip_vfs.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datas/zip_vfs.hpp b/datas/zip_vfs.hpp
index 1df0af4..73547ad 100644
--- a/datas/zip_vfs.hpp
+++ b/datas/zip_vfs.hpp
@@ -125,6 +125,8 @@ private:
     case ZIP64CentralDir::ID: {
       ZIP64CentralDir hdr;
       rd.Read(hdr);
+      // dirRecord counts bytes past itself, fixed fields take 44 of them
+      rd.Seek(rd.Tell() + hdr.dirRecord - 44);
       break;
     }
 
-- 
2.43.0


From ca4d3d38d68444e8144a25c26abfb762b1fcbf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:44 +0000
Subject: [PATCH 37/89] fix: values saved in XML nodes are text, not markup

---
 datas/reflector_xml.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/datas/reflector_xml.cpp b/datas/reflector_xml.cpp
index 2ffaea4..f0d51a8 100644
--- a/datas/reflector_xml.cpp
+++ b/datas/reflector_xml.cpp
@@ -32,6 +32,13 @@ public:
   using Reflector::GetReflectedType;
 };
 
+// Values are plain text, not a markup
+static void SetText(pugi::xml_node node, const std::string &str) {
+  if (!str.empty()) {
+    node.text().set(str.c_str());
+  }
+}
+
 static bool SaveV2(const reflType &cType, const Reflector &ri,
                    pugi::xml_node thisNode, size_t t,
                    const std::string &varName,
@@ -150,7 +157,7 @@ pugi::xml_node ReflectorXMLUtil::Save(const Reflector &ri, pugi::xml_node node,
       }
     } else {
       std::string str = ri.GetReflectedValue(t);
-      cNode.append_buffer(str.c_str(), str.size());
+      SetText(cNode, str);
     }
   }
 
@@ -259,14 +266,14 @@ pugi::xml_node ReflectorXMLUtil::SaveV2a(const Reflector &ri,
       default: {
         pugi::xml_node cNode = thisNode.append_child(varName.c_str());
         std::string str = ri.GetReflectedValue(t);
-        cNode.append_buffer(str.c_str(), str.size());
+        SetText(cNode, str);
         break;
       }
       }
     } else {
       pugi::xml_node cNode = thisNode.append_child(varName.c_str());
       std::string str = ri.GetReflectedValue(t);
-      cNode.append_buffer(str.c_str(), str.size());
+      SetText(cNode, str);
     }
   }
 
-- 
2.43.0


From b830ddbfa0028716567e9e3560db7ce564f0af74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:47 +0000
Subject: [PATCH 38/89] fix: XML names of unnamed members keep their item index

---
 datas/reflector_xml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/reflector_xml.cpp b/datas/reflector_xml.cpp
index f0d51a8..879eabf 100644
--- a/datas/reflector_xml.cpp
+++ b/datas/reflector_xml.cpp
@@ -104,7 +104,7 @@ static pugi::xml_node MakeNode(const Reflector &ri, const reflectorStatic *stat,
   else {
     className.resize(15);
     const auto cHash = stat->classHash.raw();
-    snprintf(&className[0], 15, "h:%X", cHash);
+    className.resize(snprintf(&className[0], 15, "h:%X", cHash));
   }
 
   return node.append_child(className.c_str());
@@ -119,7 +119,7 @@ static std::string GetName(const Reflector &ri, const reflectorStatic *stat,
   } else {
     varName.resize(15);
     const auto cHash = cType.valueNameHash.raw();
-    snprintf(&varName[0], 15, "h:%X", cHash);
+    varName.resize(snprintf(&varName[0], 15, "h:%X", cHash));
   }
 
   return varName;
-- 
2.43.0


From e1bec326d47582d88e96c5b9eca6948e50e80c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:51 +0000
Subject: [PATCH 39/89] fix: unknown nodes with attributes are skipped when
 loading XML

---
 datas/reflector_xml.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datas/reflector_xml.cpp b/datas/reflector_xml.cpp
index 879eabf..bc9ddf9 100644
--- a/datas/reflector_xml.cpp
+++ b/datas/reflector_xml.cpp
@@ -355,6 +355,10 @@ pugi::xml_node ReflectorXMLUtil::LoadV2(Reflector &ri, pugi::xml_node node,
 
     auto refType = rif.GetReflectedType(node.hash);
 
+    if (!refType) {
+      continue;
+    }
+
     auto DoVector = [&] {
       for (auto t : a.attributes()) {
         size_t element = -1;
-- 
2.43.0


From 7c979a7c1e0b40db5df98f839235cafbc01f23c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:54 +0000
Subject: [PATCH 40/89] fix: XML nodes of array items out of range are skipped

---
 datas/reflector_xml.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/datas/reflector_xml.cpp b/datas/reflector_xml.cpp
index bc9ddf9..9e0697a 100644
--- a/datas/reflector_xml.cpp
+++ b/datas/reflector_xml.cpp
@@ -26,6 +26,11 @@ struct ReflectedInstanceFriend : ReflectedInstance {
   const reflectorStatic *Refl() const { return rfStatic; }
 };
 
+// Sub classes out of range or not registered have no instance
+static bool IsValid(const ReflectedInstance &inst) {
+  return static_cast<const ReflectedInstanceFriend &>(inst).Refl();
+}
+
 class ReflectorFriend : public Reflector {
 public:
   using Reflector::GetReflectedInstance;
@@ -343,6 +348,11 @@ pugi::xml_node ReflectorXMLUtil::LoadV2(Reflector &ri, pugi::xml_node node,
       }
 
       auto rfInst = ri.GetReflectedSubClass(node.hash, node.index);
+
+      if (!IsValid(rfInst)) {
+        continue;
+      }
+
       ReflectorPureWrap subRefl(rfInst);
       ReflectorXMLUtil::LoadV2(subRefl, a);
       continue;
@@ -477,12 +487,22 @@ pugi::xml_node ReflectorXMLUtil::Load(Reflector &ri, pugi::xml_node node,
         for (auto sc : a.children()) {
           auto index = atoll(sc.name() + 2);
           auto rfInst = ri.GetReflectedSubClass(hash, index);
+
+          if (!IsValid(rfInst)) {
+            continue;
+          }
+
           ReflectorPureWrap subRefl(rfInst);
           ReflectorXMLUtil::Load(subRefl, sc);
         }
 
       } else {
         auto rfInst = ri.GetReflectedSubClass(hash);
+
+        if (!IsValid(rfInst)) {
+          continue;
+        }
+
         ReflectorPureWrap subRefl(rfInst);
         ReflectorXMLUtil::Load(subRefl, a);
       }
-- 
2.43.0


From 2e521060fb93068462ba181b79eda433955d7a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:44 +0000
Subject: [PATCH 41/89] fix: lookup3 hash covers the last block of inputs of
 whole blocks

---
 datas/jenkinshash3.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/datas/jenkinshash3.hpp b/datas/jenkinshash3.hpp
index 9cfd7c0..dc14119 100644
--- a/datas/jenkinshash3.hpp
+++ b/datas/jenkinshash3.hpp
@@ -110,7 +110,11 @@ constexpr uint32 JenkinsHash3_(es::string_view input, uint32 seed = 0) {
     cTrip.Mix();
   }
 
-  size_t lastKeys = input.size() == 12 ? 12 : input.size() % 12;
+  size_t lastKeys = input.size() % 12;
+
+  if (!lastKeys && input.size()) {
+    lastKeys = 12;
+  }
   JenTriplet_ lastTrip;
 
   if (lastKeys > 8) {
-- 
2.43.0


From b6ca65f85ec7dc62aeb2a803593af5b3df9d2726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:58 +0000
Subject: [PATCH 42/89] fix: hashes compare as less and greater the right way
 around

---
 datas/jenkinshash.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/jenkinshash.hpp b/datas/jenkinshash.hpp
index d37ffdf..8c20fb8 100644
--- a/datas/jenkinshash.hpp
+++ b/datas/jenkinshash.hpp
@@ -67,8 +67,8 @@ template <typename I> struct JenHash_t {
   constexpr bool operator!=(uint32 o) const { return o != value_; }
   constexpr friend bool operator!=(uint32 o, JenHash_t h) { return h != o; }
 
-  constexpr bool operator<(JenHash_t o) const { return o.value_ < value_; }
-  constexpr bool operator>(JenHash_t o) const { return o.value_ > value_; }
+  constexpr bool operator<(JenHash_t o) const { return value_ < o.value_; }
+  constexpr bool operator>(JenHash_t o) const { return value_ > o.value_; }
 
 private:
   uint32 value_;
-- 
2.43.0


From 3f502a4cb90665d42556a2850860134fe0c3357e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:05 +0000
Subject: [PATCH 43/89] fix: four character codes keep characters above 127
 apart

---
 datas/supercore.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/supercore.hpp b/datas/supercore.hpp
index 326b52a..2c808d0 100644
--- a/datas/supercore.hpp
+++ b/datas/supercore.hpp
@@ -38,7 +38,7 @@ ES_STATIC_ASSERT(atohLUT[uint8('F')] == 15);
 template <size_t n> constexpr uint32 CompileFourCC(const char (&input)[n]) {
   uint32 retVal = 0;
   for (size_t i = 0; i < sizeof(retVal); i++) {
-    const uint32 tmp = input[i];
+    const uint32 tmp = static_cast<uint8>(input[i]);
     retVal |= tmp << (8 * i);
   }
 
-- 
2.43.0


From e9a8b538b8e881cbd45bccd0fbfdff313821aae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:06 +0000
Subject: [PATCH 44/89] fix: second Blowfish encoder takes keys its own way
 through the interface

---
 datas/encrypt/blowfish.cpp | 4 ++++
 datas/encrypt/blowfish2.h  | 1 +
 2 files changed, 5 insertions(+)

diff --git a/datas/encrypt/blowfish.cpp b/datas/encrypt/blowfish.cpp
index 63fbbf9..edd2b16 100644
--- a/datas/encrypt/blowfish.cpp
+++ b/datas/encrypt/blowfish.cpp
@@ -550,6 +550,10 @@ void BlowfishEncoder2::DecodeBlock(uint64 &block) const {
   val1 = _val0.d;
 }
 
+void BlowfishEncoder2::SetKey(es::string_view key) {
+  SetKey(key.data(), static_cast<int>(key.size()));
+}
+
 void BlowfishEncoder2::SetKey(const char *inKey, int inSize) {
   if (mode)
     CreateVector();
diff --git a/datas/encrypt/blowfish2.h b/datas/encrypt/blowfish2.h
index 7f2127f..1d29a10 100644
--- a/datas/encrypt/blowfish2.h
+++ b/datas/encrypt/blowfish2.h
@@ -23,6 +23,7 @@ class BlowfishEncoder2 : public BlowfishEncoder
 {
 public:
 	void SetKey(const char *inKey, int inSize);
+	void SetKey(es::string_view key) override;
 private:
 	void EncodeBlock(uint64 &block) const;
 	void DecodeBlock(uint64 &block) const;
-- 
2.43.0


From 634fb36aeb9b154b31b8b5e7fff443ca8e082602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:07 +0000
Subject: [PATCH 45/89] fix: Blowfish keys hold bytes above 127

---
 datas/encrypt/blowfish.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datas/encrypt/blowfish.cpp b/datas/encrypt/blowfish.cpp
index edd2b16..1d6912f 100644
--- a/datas/encrypt/blowfish.cpp
+++ b/datas/encrypt/blowfish.cpp
@@ -462,7 +462,7 @@ void BlowfishEncoder::SetKey(es::string_view key) {
   uint64 lastblock = 0;
 
   memcpy(sboxes, BF_SBOXES, BF_NUMSBOXES * 4);
-  auto inKey = key.data();
+  auto inKey = reinterpret_cast<const uint8 *>(key.data());
   auto inSize = key.size();
 
   for (int i = 0; i < BF_NUMPBOXES; i++) {
@@ -554,7 +554,9 @@ void BlowfishEncoder2::SetKey(es::string_view key) {
   SetKey(key.data(), static_cast<int>(key.size()));
 }
 
-void BlowfishEncoder2::SetKey(const char *inKey, int inSize) {
+void BlowfishEncoder2::SetKey(const char *key, int inSize) {
+  auto inKey = reinterpret_cast<const uint8 *>(key);
+
   if (mode)
     CreateVector();
 
-- 
2.43.0


From 46df2d7e2aec838a538e11e32167653793c3ab0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:28 +0000
Subject: [PATCH 46/89] fix: small floats keep subnormals, NaN, and values
 below 1.5 apart

---
 datas/float.hpp | 120 +++++++++++++++---------------------------------
 1 file changed, 38 insertions(+), 82 deletions(-)

diff --git a/datas/float.hpp b/datas/float.hpp
index f617ee5..8afc002 100644
--- a/datas/float.hpp
+++ b/datas/float.hpp
@@ -28,60 +28,18 @@ public:
   static constexpr size_t EXP_REF =
       (0x3f800000 - ((EXPONENT_MASK_NS >> 1) << 23));
 
+  // Float bits of the smallest normal, of the first value out of range and of
+  // one mantissa step below normals
+  static constexpr int32 NORM_BEGIN = EXP_REF + (1 << 23);
+  static constexpr int32 RANGE_END = EXP_REF + (EXPONENT_MASK_NS << 23);
+  static constexpr int32 SUBNORM_STEP = NORM_BEGIN - (_mantissa << 23);
+
   static float ToFloat(size_t value) {
-    const IVector4A16 vtored(static_cast<int32>(value));
-    const IVector4A16 mskEMSM(vtored & IVector4A16(EXPONENT_MASK, MANTISSA_MASK,
-                                                   SIGN_MASK, MANTISSA_MASK));
-    const IVector4A16 shEMS(mskEMSM * IVector4A16(1 << (23 - _mantissa),
-                                                  1 << (23 - _mantissa),
-                                                  1 << (32 - TOTAL_SIZE), 1));
-    const size_t exponentI = mskEMSM.X;
-    IVector4A16 finResult(shEMS);
-
-    if (exponentI) {
-      if (exponentI == EXPONENT_MASK) {
-        finResult *= IVector4A16(0, 1, 1, 0);
-        finResult += IVector4A16(0x7f800000, 0, 0, 0);
-      } else {
-        finResult *= IVector4A16(1, 1, 1, 0);
-        finResult += IVector4A16(EXP_REF, 0, 0, 0);
-      }
-    } else {
-      finResult *= IVector4A16(0, 0, 1, 1);
-      finResult += IVector4A16(0x3f000000, 0, 0, 0);
-    }
-
-    const size_t result = _mm_extract_epi32(
-        _mm_hadd_epi32(_mm_hadd_epi32(finResult._data, finResult._data),
-                       finResult._data),
-        0);
-    const float resultFl = reinterpret_cast<const float &>(result);
-
-    return exponentI ? resultFl : resultFl - 0.5f;
+    return ToVector4(IVector4A16(static_cast<int32>(value))).X;
   }
 
   static size_t FromFloat(float input) {
-    const size_t cvted = reinterpret_cast<uint32 &>(input);
-    const float catchDenormal = input + 0.5f;
-    const size_t cvtedDenorm = reinterpret_cast<const uint32 &>(catchDenormal);
-    const size_t mskExp = cvted & 0x7f800000;
-    const bool isSubNorm = (cvtedDenorm & 0x3f000000) == 0x3f000000;
-
-    size_t result =
-        (isSubNorm ? cvtedDenorm : (cvted >> (23 - _mantissa))) & MANTISSA_MASK;
-
-    if (_sign && cvted & 0x80000000) {
-      result |= SIGN_MASK;
-    }
-
-    if (mskExp == 0x7f800000) {
-      result |= EXPONENT_MASK;
-    } else if (!isSubNorm) {
-      const size_t unRef = mskExp - EXP_REF;
-      result |= (unRef >> (23 - _mantissa)) & EXPONENT_MASK;
-    }
-
-    return result;
+    return static_cast<uint32>(FromVector4(Vector4A16(input)).X);
   }
 
   static const Vector4A16 _to_ps(IVector4A16 input) {
@@ -97,36 +55,32 @@ public:
     const IVector4A16 shtSign(((cvted & 0x80000000) >> (32 - TOTAL_SIZE)) &
                               SIGN_MASK);
 
-    const IVector4A16 mskExp(cvted & 0x7f800000);
-    const IVector4A16 shtMant(cvted >> (23 - _mantissa));
-
-    value += 0.5f;
-    const IVector4A16 cvtedDenorm = _to_se(value);
-    const IVector4A16 mskExpDenorm(cvtedDenorm & 0x7f800000);
-
-    const IVector4A16 denormMask(
-        _mm_cmpeq_epi32(mskExpDenorm._data, IVector4A16(0x3f000000)._data));
+    const IVector4A16 magnitude(cvted & 0x7fffffff);
+    const IVector4A16 mantissa((cvted >> (23 - _mantissa)) & MANTISSA_MASK);
 
-    const Vector4A16 blendMant(_mm_blendv_ps(_to_ps(shtMant)._data,
-                                             _to_ps(cvtedDenorm)._data,
-                                             _to_ps(denormMask)._data));
-    const IVector4A16 maskedMant(_to_se(blendMant) & MANTISSA_MASK);
+    const IVector4A16 normal((magnitude - EXP_REF) >> (23 - _mantissa));
+    const IVector4A16 invStep((254 << 23) - SUBNORM_STEP);
+    const IVector4A16 subNormal(
+        _mm_cvtps_epi32((_to_ps(magnitude) * _to_ps(invStep))._data));
+    const IVector4A16 subNormalMask(
+        _mm_cmplt_epi32(magnitude._data, IVector4A16(NORM_BEGIN)._data));
 
+    const IVector4A16 outRangeMask(
+        _mm_cmpgt_epi32(magnitude._data, IVector4A16(RANGE_END - 1)._data));
     const IVector4A16 nanMask(
-        _mm_cmpeq_epi32(mskExp._data, IVector4A16(0x7f800000)._data));
-
-    const IVector4A16 unRef(((mskExp - EXP_REF) >> (23 - _mantissa)) &
-                            EXPONENT_MASK);
-
-    const Vector4A16 blendExp0(_mm_blendv_ps(_to_ps(unRef)._data,
-                                             _to_ps(EXPONENT_MASK)._data,
-                                             _to_ps(nanMask)._data));
-
-    const Vector4A16 blendExp1(_mm_blendv_ps(blendExp0._data,
-                                            Vector4A16()._data,
-                                             _to_ps(denormMask)._data));
-
-    return _to_se(blendExp1) | maskedMant | shtSign;
+        _mm_cmpgt_epi32(magnitude._data, IVector4A16(0x7f800000)._data));
+    const IVector4A16 zeroMantissa(
+        _mm_cmpeq_epi32(mantissa._data, IVector4A16()._data));
+    const IVector4A16 nanMantissa((mantissa | (zeroMantissa & 1)) & nanMask);
+    const IVector4A16 infNan(nanMantissa | EXPONENT_MASK);
+
+    const Vector4A16 blend0(_mm_blendv_ps(_to_ps(normal)._data,
+                                          _to_ps(subNormal)._data,
+                                          _to_ps(subNormalMask)._data));
+    const Vector4A16 blend1(_mm_blendv_ps(
+        blend0._data, _to_ps(infNan)._data, _to_ps(outRangeMask)._data));
+
+    return _to_se(blend1) | shtSign;
   }
 
   static Vector4A16 ToVector4(IVector4A16 value) {
@@ -141,15 +95,17 @@ public:
     const IVector4A16 nzResult(((exponentI << (23 - _mantissa)) + EXP_REF) |
                                mantissa);
 
-    const auto imNANNZ = _mm_blendv_ps(_to_ps(nzResult)._data,
-                                       _to_ps(IVector4A16(0x7f800000))._data,
-                                       _to_ps(exponentMask)._data);
+    const auto imNANNZ =
+        _mm_blendv_ps(_to_ps(nzResult)._data, _to_ps(mantissa | 0x7f800000)._data,
+                      _to_ps(exponentMask)._data);
 
     const IVector4A16 denormMask(
         _mm_cmpeq_epi32(exponentI._data, IVector4A16()._data));
 
-    const IVector4A16 denormResult0((value & MANTISSA_MASK) | 0x3f000000);
-    const Vector4A16 denormResult1(_to_ps(denormResult0) - 0.5f);
+    const Vector4A16 denormResult0(
+        _mm_cvtepi32_ps((value & MANTISSA_MASK)._data));
+    const Vector4A16 denormResult1(denormResult0 *
+                                   _to_ps(IVector4A16(SUBNORM_STEP)));
 
     const IVector4A16 finalResult(_to_se(
         _mm_blendv_ps(imNANNZ, denormResult1._data, _to_ps(denormMask)._data)));
-- 
2.43.0


From 1d352bdea0850c18ff82f6e19488ca49a09c3f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:35 +0000
Subject: [PATCH 47/89] fix: packed 11, 11 and 10 bit floats unpack by their
 own sizes

---
 datas/float.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/datas/float.hpp b/datas/float.hpp
index 8afc002..0bad471 100644
--- a/datas/float.hpp
+++ b/datas/float.hpp
@@ -118,13 +118,13 @@ typedef esFloat<10, 5, true> float16;
 
 struct VectorR11G11B10_UFLOAT {
   uint32 data;
-  typedef esFloat<11, 5, false> codec_type;
+  typedef esFloat<6, 5, false> codec_type;
 
   operator Vector4A16() const {
-    const IVector4A16 input0(IVector4A16(data) *
-                             IVector4A16(1 << 21, 1 << 10, 1, 0));
-    const IVector4A16 input1(input0 >> 21);
+    // Blue has one bit less of mantissa
+    const IVector4A16 input(data & 0x7ff, (data >> 11) & 0x7ff,
+                            (data >> 21) & 0x7fe, 0);
 
-    return codec_type::ToVector4(input1);
+    return codec_type::ToVector4(input);
   }
 };
-- 
2.43.0


From 119636f2e617aa8c4a60fef1364353a3d0c26488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:10 +0000
Subject: [PATCH 48/89] fix: swizzled surfaces higher than wide leave no gaps

---
 formats/addr_ps3.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/formats/addr_ps3.hpp b/formats/addr_ps3.hpp
index a997629..2a0a2cc 100644
--- a/formats/addr_ps3.hpp
+++ b/formats/addr_ps3.hpp
@@ -24,6 +24,8 @@ struct MortonSettings {
   size_t height;
   size_t xmask[10]{};
   size_t ymask[10]{};
+  size_t ytop{};
+  size_t ytopShift{};
 
   MortonSettings(size_t width_, size_t height_)
       : width(width_), height(height_) {
@@ -44,7 +46,9 @@ struct MortonSettings {
       if (bitOffsetW > bitOffsetH) {
         xmask[bitOffsetH - 4] = mask;
       } else {
-        ymask[bitOffsetW - 4] = mask;
+        // What is left of y follows all pairs of bits, without a gap
+        ytop = mask;
+        ytopShift = bitOffsetW;
       }
     }
   }
@@ -94,5 +98,5 @@ size_t MortonAddr(size_t x, size_t y, const MortonSettings &settings) {
     }
   }
 
-  return retval;
+  return retval | ((y & settings.ytop) << settings.ytopShift);
 }
-- 
2.43.0


From a0576681ae902ccdd91dee9b482f2944eac54810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:11 +0000
Subject: [PATCH 49/89] fix: format codecs read their elements only

---
 uni/internal/format_full.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/uni/internal/format_full.hpp b/uni/internal/format_full.hpp
index 5f3659d..0607d56 100644
--- a/uni/internal/format_full.hpp
+++ b/uni/internal/format_full.hpp
@@ -18,6 +18,7 @@
 #include "datas/float.hpp"
 #include "datas/supercore.hpp"
 #include "uni/format.hpp"
+#include <cstring>
 
 namespace _uni_ {
 static constexpr size_t fmtStrides[]{0,  128, 96, 64, 64, 48, 32, 32, 32,
@@ -99,15 +100,15 @@ public:
 template <> class FormatCodec_t<FormatType::UINT, DataType::R32G32> {
 public:
   static IVector4A16 GetValue(const char *input) {
-    const auto inputRC = *reinterpret_cast<const IVector *>(input);
+    const auto inputRC = *reinterpret_cast<const IVector2 *>(input);
     return IVector4A16(inputRC.X, inputRC.Y, 0, 0);
   }
 };
 template <> class FormatCodec_t<FormatType::UINT, DataType::R32> {
 public:
   static IVector4A16 GetValue(const char *input) {
-    const auto inputRC = *reinterpret_cast<const IVector *>(input);
-    return IVector4A16(inputRC.X, 0, 0, 0);
+    const auto inputRC = *reinterpret_cast<const int32 *>(input);
+    return IVector4A16(inputRC, 0, 0, 0);
   }
 };
 template <> class FormatCodec_t<FormatType::UINT, DataType::R16G16B16A16> {
@@ -354,7 +355,8 @@ public:
 template <> class FormatCodec_t<FormatType::UNORM, DataType::R16G16B16> {
 public:
   static UIVector4A16 GetValueNoFrac(const char *input) {
-    const uint64 rtVal = reinterpret_cast<const uint64 &>(*input);
+    uint64 rtVal = 0;
+    std::memcpy(&rtVal, input, 6);
     UIVector4A16 vctr(_mm_set1_epi64x(rtVal)); // XY, ZW, XY, ZW
     const UIVector4A16 result((vctr * UIVector4A16(1 << 16, 1 << 16, 1, 0)) >>
                               16); // X, Z, Y, W
@@ -404,7 +406,8 @@ public:
 template <> class FormatCodec_t<FormatType::UNORM, DataType::R8G8B8> {
 public:
   static UIVector4A16 GetValueNoFrac(const char *input) {
-    const uint32 rtVal = reinterpret_cast<const uint32 &>(*input);
+    uint32 rtVal = 0;
+    std::memcpy(&rtVal, input, 3);
     UIVector4A16 vctr(rtVal);
     return (vctr * UIVector4A16(1 << 24, 1 << 16, 1 << 8, 0)) >> 24;
   }
-- 
2.43.0


From 8b7393481be26c9a0f9408c1285c27c7ccb40e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:15 +0000
Subject: [PATCH 50/89] fix: blue of packed 11, 11 and 10 bit floats takes no
 bit of green

---
 uni/internal/format_full.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/uni/internal/format_full.hpp b/uni/internal/format_full.hpp
index 0607d56..d1b4801 100644
--- a/uni/internal/format_full.hpp
+++ b/uni/internal/format_full.hpp
@@ -764,8 +764,10 @@ public:
   static Vector4A16 GetValue(const char *input) {
     typedef FormatCodec_t<FormatType::UNORM, DataType::R11G11B10> parent;
     const UIVector4A16 result(parent::GetValueNoFrac(input));
+    // Blue has one bit less of mantissa
+    static const UIVector4A16 mask(0x7ff, 0x7ff, 0x7fe, 0);
 
-    return codec_type::ToVector4(result);
+    return codec_type::ToVector4(result & mask);
   }
 };
 
@@ -776,8 +778,10 @@ public:
   static Vector4A16 GetValue(const char *input) {
     typedef FormatCodec_t<FormatType::UNORM, DataType::R11G11B10> parent;
     const UIVector4A16 result(parent::GetValueNoFrac(input));
+    // Blue has one bit less of mantissa
+    static const UIVector4A16 mask(0x7ff, 0x7ff, 0x7fe, 0);
 
-    return codec_type::ToVector4(result);
+    return codec_type::ToVector4(result & mask);
   }
 };
 
-- 
2.43.0


From 28c75b56f38ec8f5dd8d77ba248f86aeacd0f41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:17 +0000
Subject: [PATCH 51/89] fix: constant self relative pointers can be
 dereferenced

---
 datas/pointer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/pointer.hpp b/datas/pointer.hpp
index d7e7cff..56e40a9 100644
--- a/datas/pointer.hpp
+++ b/datas/pointer.hpp
@@ -86,7 +86,7 @@ public:
                         reinterpret_cast<const char *>(&varPtr) + varPtr)
                   : nullptr;
   }
-  const C &operator*() const { return *static_cast<C *>(*this); }
+  const C &operator*() const { return *static_cast<const C *>(*this); }
   const C *operator->() const { return *this; }
 
   bool Fixed() const {
-- 
2.43.0


From 15ff2edb06ed8e4ff441e575f52cb8a8ead1b4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:20 +0000
Subject: [PATCH 52/89] fix: self relative pointers can be set to null

---
 datas/pointer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datas/pointer.hpp b/datas/pointer.hpp
index 56e40a9..eeee7c2 100644
--- a/datas/pointer.hpp
+++ b/datas/pointer.hpp
@@ -113,8 +113,9 @@ public:
 
   PointerX86 &operator=(C *newDest) {
     uintptr_t _rawDest = reinterpret_cast<uintptr_t>(newDest);
-    varPtr =
-        static_cast<uint32>(_rawDest - reinterpret_cast<uintptr_t>(&varPtr));
+    varPtr = newDest ? static_cast<uint32>(
+                           _rawDest - reinterpret_cast<uintptr_t>(&varPtr))
+                     : 0;
 
     return *this;
   }
-- 
2.43.0


From add2f703968a75c690f1c1d9540cbf42235f3d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:26 +0000
Subject: [PATCH 53/89] fix: vectors grown from or copied of linked storage get
 their own

---
 datas/allocator_hybrid.hpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/datas/allocator_hybrid.hpp b/datas/allocator_hybrid.hpp
index 4ada4c8..909c12a 100644
--- a/datas/allocator_hybrid.hpp
+++ b/datas/allocator_hybrid.hpp
@@ -22,7 +22,10 @@
 #endif
 
 #include <cstddef>
+#include <memory>
+#include <new>
 #include <type_traits>
+#include <utility>
 
 namespace es {
 
@@ -34,12 +37,17 @@ struct allocator_hybrid_base {
   template <class C>
   static void LinkStorage(C &input, typename C::pointer start,
                           typename C::pointer end) {
+    if (start == end) {
+      DisposeStorage(input);
+      return;
+    }
+
     input = C(start, end, typename C::allocator_type(start));
   }
 
   template <class C>
   static void LinkStorage(C &input, typename C::pointer start, size_t count) {
-    input = C(start, start + count, typename C::allocator_type(start));
+    LinkStorage(input, start, start + count);
   }
 };
 
@@ -54,6 +62,11 @@ template <class _Ty> struct allocator_hybrid : allocator_hybrid_base {
 
   pointer buffer;
 
+private:
+  // Linked buffer is handed out only once, growing must not alias it
+  bool linked = false;
+
+public:
   allocator_hybrid() noexcept : buffer(nullptr) {}
 
   allocator_hybrid(pointer iBuff) noexcept : buffer(iBuff){};
@@ -63,18 +76,21 @@ template <class _Ty> struct allocator_hybrid : allocator_hybrid_base {
 
   allocator_hybrid(const allocator_hybrid<value_type> &input) noexcept {
     buffer = input.buffer;
+    linked = input.linked;
   }
 
   _DECLSPEC_ALLOCATOR pointer allocate(size_t count) {
-    if (!buffer)
+    if (!buffer || linked)
       return static_cast<pointer>(operator new(count * sizeof(value_type)));
-    else
-      return buffer;
+
+    linked = true;
+    return buffer;
   }
 
   void deallocate(pointer ptr, size_t) {
     if (buffer == ptr) {
       buffer = nullptr;
+      linked = false;
       return;
     }
 
-- 
2.43.0


From bd807478476de21e99188f61f63720c2626919cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:33 +0000
Subject: [PATCH 54/89] fix: vectors can be linked to constant storage

---
 datas/allocator_hybrid.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/datas/allocator_hybrid.hpp b/datas/allocator_hybrid.hpp
index 909c12a..fba1511 100644
--- a/datas/allocator_hybrid.hpp
+++ b/datas/allocator_hybrid.hpp
@@ -87,6 +87,20 @@ public:
     return buffer;
   }
 
+  // Items of linked buffer are in place already, it might be constant
+  void construct(pointer ptr, reference item) {
+    construct(ptr, static_cast<const_reference>(item));
+  }
+
+  void construct(pointer ptr, const_reference item) {
+    if (ptr != std::addressof(item))
+      ::new (static_cast<void *>(ptr)) value_type(item);
+  }
+
+  template <class U, class... Args> void construct(U *ptr, Args &&...args) {
+    ::new (static_cast<void *>(ptr)) U(std::forward<Args>(args)...);
+  }
+
   void deallocate(pointer ptr, size_t) {
     if (buffer == ptr) {
       buffer = nullptr;
-- 
2.43.0


From bc58c6450bc680ac8b63ce275c717adc5d99d1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:39 +0000
Subject: [PATCH 55/89] fix: swapped vectors take their linked storage with
 them

---
 datas/allocator_hybrid.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datas/allocator_hybrid.hpp b/datas/allocator_hybrid.hpp
index fba1511..7e9a1c5 100644
--- a/datas/allocator_hybrid.hpp
+++ b/datas/allocator_hybrid.hpp
@@ -59,6 +59,7 @@ template <class _Ty> struct allocator_hybrid : allocator_hybrid_base {
   typedef const value_type &const_reference;
   typedef std::true_type propagate_on_container_copy_assignment;
   typedef std::true_type propagate_on_container_move_assignment;
+  typedef std::true_type propagate_on_container_swap;
 
   pointer buffer;
 
-- 
2.43.0


From d8b45d2b7f354169c8c361ddc5cb0e13750d0b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:40 +0000
Subject: [PATCH 56/89] fix: unhandled and unsupported calls keep the type of
 their error

---
 uni/internal/exception.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uni/internal/exception.hpp b/uni/internal/exception.hpp
index 914921d..350eaab 100644
--- a/uni/internal/exception.hpp
+++ b/uni/internal/exception.hpp
@@ -22,9 +22,9 @@ namespace _uni_ {
 
 inline std::exception ThrowVoidCall(bool logical) {
   if (logical) {
-    return std::logic_error("Unhandled call!");
+    throw std::logic_error("Unhandled call!");
   } else {
-    return std::runtime_error("Unsupported call!");
+    throw std::runtime_error("Unsupported call!");
   }
 }
 template <class C, C exValue> std::exception ThrowVoidCall(C expected) {
-- 
2.43.0


From f445e5354d3cf687a9954e37242710c9d149f771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:42 +0000
Subject: [PATCH 57/89] fix: errors of forbidden changes can be caught as such

---
 uni/internal/exception.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uni/internal/exception.hpp b/uni/internal/exception.hpp
index 350eaab..96b505f 100644
--- a/uni/internal/exception.hpp
+++ b/uni/internal/exception.hpp
@@ -33,7 +33,7 @@ template <class C, C exValue> std::exception ThrowVoidCall(C expected) {
 } // namespace _uni_
 
 namespace uni {
-class ModifyError : std::runtime_error {
+class ModifyError : public std::runtime_error {
   using parent = std::runtime_error;
 
 public:
-- 
2.43.0


From 3d9cd933b833e190f91f4788b8346e792a2d15db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:56 +0000
Subject: [PATCH 58/89] fix: wide text holds whole characters where they fit

---
 datas/unicode.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/datas/unicode.hpp b/datas/unicode.hpp
index c7d6fac..483a237 100644
--- a/datas/unicode.hpp
+++ b/datas/unicode.hpp
@@ -20,6 +20,7 @@
 #include <codecvt>
 #include <locale>
 #include <string>
+#include <type_traits>
 
 #if _MSC_VER >= 1900 
 #define _ES_UTF16 int16
@@ -68,6 +69,10 @@ template <typename _Ty> struct _utf8cvt<_Ty, 4> {
 
 template <typename _Ty> using utf8cvt = _utf8cvt<_Ty, sizeof(_Ty)>;
 
+using wide_codecvt =
+    std::conditional<sizeof(wchar_t) == 2, std::codecvt_utf8_utf16<wchar_t>,
+                     std::codecvt_utf8<wchar_t>>::type;
+
 } // namespace _es
 
 namespace es {
@@ -80,12 +85,12 @@ template <class C> std::string ToUTF8(const std::basic_string<C> &input) {
 }
 
 inline std::wstring ToUTF1632(const char *input) {
-  std::wstring_convert<std::codecvt_utf8_utf16<wchar_t>> converter;
+  std::wstring_convert<_es::wide_codecvt> converter;
   return converter.from_bytes(input);
 }
 
 inline std::wstring ToUTF1632(const std::string &input) {
-  std::wstring_convert<std::codecvt_utf8_utf16<wchar_t>> converter;
+  std::wstring_convert<_es::wide_codecvt> converter;
   return converter.from_bytes(input);
 }
 }; // namespace es
-- 
2.43.0


From 81f2a738847a0d9c6543d94316411d38633f580b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:58 +0000
Subject: [PATCH 59/89] fix: typeless block compressed formats take up blocks
 too

---
 formats/DDS.hpp | 21 +--------------------
 1 file changed, 1 insertion(+), 20 deletions(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index 13ef396..856374a 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -473,26 +473,7 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
     bool useBlockCompression = false;
 
     if (dxgiFormat) {
-      switch (dxgiFormat) {
-      case DXGI_FORMAT_BC1_UNORM:
-      case DXGI_FORMAT_BC1_UNORM_SRGB:
-      case DXGI_FORMAT_BC2_UNORM:
-      case DXGI_FORMAT_BC2_UNORM_SRGB:
-      case DXGI_FORMAT_BC3_UNORM:
-      case DXGI_FORMAT_BC3_UNORM_SRGB:
-      case DXGI_FORMAT_BC4_UNORM:
-      case DXGI_FORMAT_BC4_SNORM:
-      case DXGI_FORMAT_BC5_UNORM:
-      case DXGI_FORMAT_BC5_SNORM:
-      case DXGI_FORMAT_BC6H_UF16:
-      case DXGI_FORMAT_BC6H_SF16:
-      case DXGI_FORMAT_BC7_UNORM:
-      case DXGI_FORMAT_BC7_UNORM_SRGB:
-        useBlockCompression = true;
-        break;
-      default:
-        break;
-      }
+      useBlockCompression = IsBC(dxgiFormat);
     } else {
       switch (fourCC) {
       case CompileFourCC("DXT1"):
-- 
2.43.0


From 9592bf56cd342c9a15bffcab912e73a97355f8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:00 +0000
Subject: [PATCH 60/89] fix: sides of block compressed mip levels are whole
 blocks

---
 formats/DDS.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index 856374a..d790cf1 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -497,9 +497,9 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
     for (uint32 m = 0; m < _mipCount; m++) {
       uint32 __width = _width, __height = _height;
 
-      if (useBlockCompression && (__width * __height < 16)) {
-        __width = 4;
-        __height = 4;
+      if (useBlockCompression) {
+        __width = (__width + 3) & ~3U;
+        __height = (__height + 3) & ~3U;
       }
 
       dOut.sizes[m] = ((__width * __height * bpp) + 7) / 8;
-- 
2.43.0


From 95b61b21dd024912f6579a718a16092b2fafb325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:02 +0000
Subject: [PATCH 61/89] fix: mip levels are at least a pixel wide and high

---
 formats/DDS.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index d790cf1..783cb43 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -505,8 +505,8 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
       dOut.sizes[m] = ((__width * __height * bpp) + 7) / 8;
       dOut.offsets[m] = fullBuffer;
       fullBuffer += dOut.sizes[m];
-      _width /= 2;
-      _height /= 2;
+      _width = _width > 1 ? _width / 2 : 1;
+      _height = _height > 1 ? _height / 2 : 1;
     }
 
     return fullBuffer;
-- 
2.43.0


From 2fce9e4778315d2ec2e2bc28fed4f3b6c5d07ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:04 +0000
Subject: [PATCH 62/89] fix: sizes of large textures do not overflow

---
 formats/DDS.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index 783cb43..cd7bbff 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -502,7 +502,8 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
         __height = (__height + 3) & ~3U;
       }
 
-      dOut.sizes[m] = ((__width * __height * bpp) + 7) / 8;
+      dOut.sizes[m] = static_cast<uint32>(
+          (static_cast<uint64>(__width) * __height * bpp + 7) / 8);
       dOut.offsets[m] = fullBuffer;
       fullBuffer += dOut.sizes[m];
       _width = _width > 1 ? _width / 2 : 1;
-- 
2.43.0


From 8a1d43228aca652bf4e31f9880f98df3117cff30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:06 +0000
Subject: [PATCH 63/89] fix: mip levels beyond the fifteenth are not written
 past the result

---
 formats/DDS.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index cd7bbff..caaa7d0 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -467,6 +467,8 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
       return 0;
 
     uint32 _mipCount = mipMapCount ? mipMapCount : 1;
+    if (_mipCount > Mips::maxMips)
+      _mipCount = Mips::maxMips;
     uint32 _width = width;
     uint32 _height = height;
     uint32 fullBuffer = 0;
-- 
2.43.0


From 63397abeaa6b571340f9bb3cc2534f045bcf0a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:08 +0000
Subject: [PATCH 64/89] fix: formats beyond the known ones have no known size

---
 formats/DDS.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index caaa7d0..df5d86d 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -413,7 +413,7 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
     DDS_PixelFormat &tformat = static_cast<DDS_PixelFormat &>(*this);
 
     if (tformat == DDSFormat_DX10) {
-      bpp = _bpps[dxgiFormat];
+      bpp = dxgiFormat < sizeof(_bpps) / sizeof(_bpps[0]) ? _bpps[dxgiFormat] : 0;
     } else {
       switch (fourCC) {
       case 36:
-- 
2.43.0


From 2967385909835d1c05d3211c464be1f91b2cd1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:12 +0000
Subject: [PATCH 65/89] fix: vectors of four take a number for the other
 operand

---
 datas/vectors.hpp | 32 ++++++++------------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/datas/vectors.hpp b/datas/vectors.hpp
index f4cb016..ec1ff2e 100644
--- a/datas/vectors.hpp
+++ b/datas/vectors.hpp
@@ -326,30 +326,14 @@ public:
     return {X << input.X, Y << input.Y, Z << input.Z, W << input.W};
   }
 
-  vector operator+(value_type input) const {
-    return *this = *this + vector(input);
-  }
-  vector operator-(value_type input) const {
-    return *this = *this - vector(input);
-  }
-  vector operator*(value_type input) const {
-    return *this = *this * vector(input);
-  }
-  vector operator/(value_type input) const {
-    return *this = *this / vector(input);
-  }
-  vector operator&(value_type input) const {
-    return *this = *this & vector(input);
-  }
-  vector operator|(value_type input) const {
-    return *this = *this | vector(input);
-  }
-  vector operator>>(shift_value input) const {
-    return *this = *this >> vector(input);
-  }
-  vector operator<<(shift_value input) const {
-    return *this = *this << vector(input);
-  }
+  vector operator+(value_type input) const { return *this + vector(input); }
+  vector operator-(value_type input) const { return *this - vector(input); }
+  vector operator*(value_type input) const { return *this * vector(input); }
+  vector operator/(value_type input) const { return *this / vector(input); }
+  vector operator&(value_type input) const { return *this & vector(input); }
+  vector operator|(value_type input) const { return *this | vector(input); }
+  vector operator>>(shift_value input) const { return *this >> vector(input); }
+  vector operator<<(shift_value input) const { return *this << vector(input); }
 
   vec_ref operator+=(vec_cref input) { return *this = *this + input; }
   vec_ref operator-=(vec_cref input) { return *this = *this - input; }
-- 
2.43.0


From 911254b19309e7d5ade178a0affc78165af4d12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:27 +0000
Subject: [PATCH 66/89] fix: vectors of any integers can be shifted by a number

---
 datas/vectors.hpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/datas/vectors.hpp b/datas/vectors.hpp
index ec1ff2e..828dae9 100644
--- a/datas/vectors.hpp
+++ b/datas/vectors.hpp
@@ -69,8 +69,12 @@ public:
   vector operator/(value_type input) const { return *this / vector(input); }
   vector operator&(value_type input) const { return *this & vector(input); }
   vector operator|(value_type input) const { return *this | vector(input); }
-  vector operator>>(shift_value input) const { return *this >> vector(input); }
-  vector operator<<(shift_value input) const { return *this << vector(input); }
+  vector operator>>(shift_value input) const {
+    return *this >> t_Vector2<shift_value>(input);
+  }
+  vector operator<<(shift_value input) const {
+    return *this << t_Vector2<shift_value>(input);
+  }
 
   vec_ref operator+=(vec_cref input) { return *this = *this + input; }
   vec_ref operator-=(vec_cref input) { return *this = *this - input; }
@@ -197,8 +201,12 @@ public:
   vector operator/(value_type input) const { return *this / vector(input); }
   vector operator&(value_type input) const { return *this & vector(input); }
   vector operator|(value_type input) const { return *this | vector(input); }
-  vector operator>>(shift_value input) const { return *this >> vector(input); }
-  vector operator<<(shift_value input) const { return *this << vector(input); }
+  vector operator>>(shift_value input) const {
+    return *this >> t_Vector<shift_value>(input);
+  }
+  vector operator<<(shift_value input) const {
+    return *this << t_Vector<shift_value>(input);
+  }
 
   vec_ref operator+=(vec_cref input) { return *this = *this + input; }
   vec_ref operator-=(vec_cref input) { return *this = *this - input; }
@@ -332,8 +340,12 @@ public:
   vector operator/(value_type input) const { return *this / vector(input); }
   vector operator&(value_type input) const { return *this & vector(input); }
   vector operator|(value_type input) const { return *this | vector(input); }
-  vector operator>>(shift_value input) const { return *this >> vector(input); }
-  vector operator<<(shift_value input) const { return *this << vector(input); }
+  vector operator>>(shift_value input) const {
+    return *this >> V4ScalarType<shift_value>(input);
+  }
+  vector operator<<(shift_value input) const {
+    return *this << V4ScalarType<shift_value>(input);
+  }
 
   vec_ref operator+=(vec_cref input) { return *this = *this + input; }
   vec_ref operator-=(vec_cref input) { return *this = *this - input; }
-- 
2.43.0


From 5db36999344d7976ba21cba5c8e4f595adabf4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:38 +0000
Subject: [PATCH 67/89] fix: or-assignment of vectors of four is no
 and-assignment

---
 datas/vectors.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/vectors.hpp b/datas/vectors.hpp
index 828dae9..4c46136 100644
--- a/datas/vectors.hpp
+++ b/datas/vectors.hpp
@@ -352,7 +352,7 @@ public:
   vec_ref operator*=(vec_cref input) { return *this = *this * input; }
   vec_ref operator/=(vec_cref input) { return *this = *this / input; }
   vec_ref operator&=(vec_cref input) { return *this = *this & input; }
-  vec_ref operator|=(vec_cref input) { return *this = *this & input; }
+  vec_ref operator|=(vec_cref input) { return *this = *this | input; }
   vec_ref operator>>=(shift_vec input) { return *this = *this >> input; }
   vec_ref operator<<=(shift_vec input) { return *this = *this << input; }
 
@@ -361,7 +361,7 @@ public:
   vec_ref operator*=(value_type input) { return *this = *this * input; }
   vec_ref operator/=(value_type input) { return *this = *this / input; }
   vec_ref operator&=(value_type input) { return *this = *this & input; }
-  vec_ref operator|=(value_type input) { return *this = *this & input; }
+  vec_ref operator|=(value_type input) { return *this = *this | input; }
   vec_ref operator>>=(shift_value input) { return *this = *this >> input; }
   vec_ref operator<<=(shift_value input) { return *this = *this << input; }
 
-- 
2.43.0


From 7ac816d705bdcf1bf95a54ae7bd19297644cd981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:50 +0000
Subject: [PATCH 68/89] fix: symmetry of vectors looks at all components

---
 datas/vectors_simd.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/datas/vectors_simd.hpp b/datas/vectors_simd.hpp
index 7b2e079..65798bf 100644
--- a/datas/vectors_simd.hpp
+++ b/datas/vectors_simd.hpp
@@ -170,9 +170,7 @@ public:
 
   // Check if X == Y == Z == W
   bool IsSymetrical() const {
-    const store_type temp =
-        _mm_shuffle_ps(_data, _data, _MM_SHUFFLE(3, 1, 0, 2));
-    return Compare(_mm_hsub_ps(_data, _data), _mm_hsub_ps(temp, temp));
+    return Compare(_data, _mm_shuffle_ps(_data, _data, _MM_SHUFFLE(0, 0, 0, 0)));
   }
 
   // Return -1 if [X | Y | Z | W] < 0
-- 
2.43.0


From 5f6727e50927364bee4b3a35110683e44a47653c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:03 +0000
Subject: [PATCH 69/89] fix: vectors with some components equal and others less
 are less or equal

---
 datas/vectors_simd.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datas/vectors_simd.hpp b/datas/vectors_simd.hpp
index 65798bf..f2e6d9f 100644
--- a/datas/vectors_simd.hpp
+++ b/datas/vectors_simd.hpp
@@ -157,10 +157,12 @@ public:
     return _mm_movemask_ps(_mm_cmpgt_ps(_data, input._data)) == 0xF;
   }
   bool operator<=(vec_cref input) const {
-    return *this < input || *this == input;
+    return _mm_movemask_ps(_mm_cmple_ps(
+               _data, _mm_add_ps(input._data, GetEpsilon()))) == 0xF;
   }
   bool operator>=(vec_cref input) const {
-    return *this > input || *this == input;
+    return _mm_movemask_ps(_mm_cmpge_ps(
+               _data, _mm_sub_ps(input._data, GetEpsilon()))) == 0xF;
   }
 
   bool operator<(value_type input) const { return *this < vector(input); }
-- 
2.43.0


From 0b1f1473218ac73dbdcdd4d64c2181c4e502259b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:14 +0000
Subject: [PATCH 70/89] fix: great unsigned numbers stay positive when made
 floating point ones

The signed normalized formats that relied on it say now that they are signed.
---
 datas/vectors_simd.hpp       | 11 ++++++++++-
 uni/internal/format_full.hpp | 11 +++++++----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/datas/vectors_simd.hpp b/datas/vectors_simd.hpp
index f2e6d9f..6f2c83d 100644
--- a/datas/vectors_simd.hpp
+++ b/datas/vectors_simd.hpp
@@ -271,7 +271,16 @@ public:
     _data = _mm_set_epi32(input.W, input.Z, input.Y, input.X);
   }
 
-  operator V4SimdFltType() const { return _mm_cvtepi32_ps(_data); }
+  operator V4SimdFltType() const {
+    if (std::is_unsigned<eType>::value) {
+      const __m128 high = _mm_cvtepi32_ps(_mm_srli_epi32(_data, 16));
+      const __m128 low =
+          _mm_cvtepi32_ps(_mm_and_si128(_data, _mm_set1_epi32(0xffff)));
+      return _mm_add_ps(_mm_mul_ps(high, _mm_set1_ps(65536.f)), low);
+    }
+
+    return _mm_cvtepi32_ps(_data);
+  }
 
   vector operator+(vec_cref input) const {
     return _mm_add_epi32(_data, input._data);
diff --git a/uni/internal/format_full.hpp b/uni/internal/format_full.hpp
index d1b4801..46ee5e5 100644
--- a/uni/internal/format_full.hpp
+++ b/uni/internal/format_full.hpp
@@ -523,21 +523,24 @@ template <> class FormatCodec_t<FormatType::NORM, DataType::R32G32B32A32> {
 public:
   static Vector4A16 GetValue(const char *input) {
     typedef FormatCodec_t<FormatType::UNORM, DataType::R32G32B32A32> parent;
-    return Vector4A16(parent::GetValueNoFrac(input)) * GetFraction(31);
+    return Vector4A16(IVector4A16(parent::GetValueNoFrac(input))) *
+           GetFraction(31);
   }
 };
 template <> class FormatCodec_t<FormatType::NORM, DataType::R32G32B32> {
 public:
   static Vector4A16 GetValue(const char *input) {
     typedef FormatCodec_t<FormatType::UNORM, DataType::R32G32B32> parent;
-    return Vector4A16(parent::GetValueNoFrac(input)) * GetFraction(31);
+    return Vector4A16(IVector4A16(parent::GetValueNoFrac(input))) *
+           GetFraction(31);
   }
 };
 template <> class FormatCodec_t<FormatType::NORM, DataType::R32G32> {
 public:
   static Vector4A16 GetValue(const char *input) {
     typedef FormatCodec_t<FormatType::UNORM, DataType::R32G32> parent;
-    return Vector4A16(parent::GetValueNoFrac(input)) * GetFraction(31);
+    return Vector4A16(IVector4A16(parent::GetValueNoFrac(input))) *
+           GetFraction(31);
   }
 };
 template <> class FormatCodec_t<FormatType::NORM, DataType::R32> {
@@ -661,7 +664,7 @@ public:
   static Vector4A16 GetValue(const char *input) {
     static const Vector4A16 frac(GetFraction(23), GetFraction(7), 0, 0);
 
-    return Vector4A16(GetValueNoFrac(input)) * frac;
+    return Vector4A16(IVector4A16(GetValueNoFrac(input))) * frac;
   }
 };
 template <> class FormatCodec_t<FormatType::NORM, DataType::R5G5B5A1> {
-- 
2.43.0


From cb7f74252722de5bcece0690ad1b4faf6d256800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:47 +0000
Subject: [PATCH 71/89] fix: wide text of vectors is wide

---
 datas/vectors_string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datas/vectors_string.hpp b/datas/vectors_string.hpp
index 7125d94..02eb461 100644
--- a/datas/vectors_string.hpp
+++ b/datas/vectors_string.hpp
@@ -34,16 +34,16 @@ template <class C> string to_string(const t_Vector4_<C> &type) {
          ' ' + to_string(type.w);
 }
 
-template <class C> string to_wstring(const t_Vector2<C> &type) {
+template <class C> wstring to_wstring(const t_Vector2<C> &type) {
   return to_wstring(type.x) + L' ' + to_wstring(type.y);
 }
 
-template <class C> string to_wstring(const t_Vector<C> &type) {
+template <class C> wstring to_wstring(const t_Vector<C> &type) {
   return to_wstring(type.x) + L' ' + to_wstring(type.y) + L' ' +
          to_wstring(type.z);
 }
 
-template <class C> string to_wstring(const t_Vector4_<C> &type) {
+template <class C> wstring to_wstring(const t_Vector4_<C> &type) {
   return to_wstring(type.x) + L' ' + to_wstring(type.y) + L' ' +
          to_wstring(type.z) + L' ' + to_wstring(type.w);
 }
-- 
2.43.0


From e11c4d57373638ee35e7e0e8b5466fb55d1f98a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:05 +0000
Subject: [PATCH 72/89] fix: opaque blocks of textures with alpha have their
 alpha written

---
 formats/BlockDecoder.inl | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/formats/BlockDecoder.inl b/formats/BlockDecoder.inl
index 147246a..9defeec 100644
--- a/formats/BlockDecoder.inl
+++ b/formats/BlockDecoder.inl
@@ -102,20 +102,18 @@ inline void _DecodeBC1BlockA(const char *data, char *obuffer, uint32 w,
         *(obuffer + ((h + row) * width + w + 3) * pixeloffset)) = colors[d4];
     data++;
 
-    if (usealpha) {
-      reinterpret_cast<uint8 &>(
-          *(obuffer + 3 + ((h + row) * width + w) * pixeloffset)) =
-          d1 == 3 ? 0 : 0xff;
-      reinterpret_cast<uint8 &>(
-          *(obuffer + 3 + ((h + row) * width + w + 1) * pixeloffset)) =
-          d2 == 3 ? 0 : 0xff;
-      reinterpret_cast<uint8 &>(
-          *(obuffer + 3 + ((h + row) * width + w + 2) * pixeloffset)) =
-          d3 == 3 ? 0 : 0xff;
-      reinterpret_cast<uint8 &>(
-          *(obuffer + 3 + ((h + row) * width + w + 3) * pixeloffset)) =
-          d4 == 3 ? 0 : 0xff;
-    }
+    reinterpret_cast<uint8 &>(
+        *(obuffer + 3 + ((h + row) * width + w) * pixeloffset)) =
+        usealpha && d1 == 3 ? 0 : 0xff;
+    reinterpret_cast<uint8 &>(
+        *(obuffer + 3 + ((h + row) * width + w + 1) * pixeloffset)) =
+        usealpha && d2 == 3 ? 0 : 0xff;
+    reinterpret_cast<uint8 &>(
+        *(obuffer + 3 + ((h + row) * width + w + 2) * pixeloffset)) =
+        usealpha && d3 == 3 ? 0 : 0xff;
+    reinterpret_cast<uint8 &>(
+        *(obuffer + 3 + ((h + row) * width + w + 3) * pixeloffset)) =
+        usealpha && d4 == 3 ? 0 : 0xff;
   }
 }
 
-- 
2.43.0


From a3072bfd6dd8fc799c38a05d47403ac3a756b4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:07 +0000
Subject: [PATCH 73/89] fix: colours of quickly decoded blocks are not negative

---
 formats/BlockDecoderSimd.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/formats/BlockDecoderSimd.hpp b/formats/BlockDecoderSimd.hpp
index adf52c8..5f86d10 100644
--- a/formats/BlockDecoderSimd.hpp
+++ b/formats/BlockDecoderSimd.hpp
@@ -19,12 +19,12 @@
 #include "datas/vectors_simd.hpp"
 #include <cstring>
 
-static inline void DecodeRGB565Blocks(const char *data, IVector4A16 &color0,
-                                      IVector4A16 &color1) {
+static inline void DecodeRGB565Blocks(const char *data, UIVector4A16 &color0,
+                                      UIVector4A16 &color1) {
   const uint32 rawdata = reinterpret_cast<const uint32 &>(*data);
-  const auto cl00 = IVector4A16(rawdata);
-  const auto cl0 = cl00 * IVector4A16(0x8000000, 0x200000, 0x10000, 0);
-  const auto cl1 = cl00 * IVector4A16(0x800, 0x20, 0x1, 0);
+  const auto cl00 = UIVector4A16(rawdata);
+  const auto cl0 = cl00 * UIVector4A16(0x8000000, 0x200000, 0x10000, 0);
+  const auto cl1 = cl00 * UIVector4A16(0x800, 0x20, 0x1, 0);
 
   color0 = cl0 >> 24;
   color1 = cl1 >> 24;
@@ -33,7 +33,7 @@ static inline void DecodeRGB565Blocks(const char *data, IVector4A16 &color0,
 inline void _SDecodeBC1Block(const char *data, char *obuffer, uint32 w,
                              uint32 h, uint32 width,
                              const uint32 pixeloffset = 3) {
-  IVector4A16 color0, color1;
+  UIVector4A16 color0, color1;
   DecodeRGB565Blocks(data, color0, color1);
   data += 4;
   h *= 4;
@@ -41,10 +41,10 @@ inline void _SDecodeBC1Block(const char *data, char *obuffer, uint32 w,
   width *= 4;
 
   // Precompute colors
-  IVector4A16 color2(((color0 * 0xaa) + (color1 * 0x55)) >> 8);
-  IVector4A16 color3(((color0 * 0x55) + (color1 * 0xaa)) >> 8);
+  UIVector4A16 color2(((color0 * 0xaa) + (color1 * 0x55)) >> 8);
+  UIVector4A16 color3(((color0 * 0x55) + (color1 * 0xaa)) >> 8);
 
-  static const IVector4A16 shiftMask(1, 0x100, 0x10000, 1);
+  static const UIVector4A16 shiftMask(1, 0x100, 0x10000, 1);
 
   // left shift y << 8, z << 16 but with mul
   color0 = color0 * shiftMask;
-- 
2.43.0


From 6b5ff4e8749dde5f26d8176ee8b1f78ae453e3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:01 +0000
Subject: [PATCH 74/89] fix: the next chunk of a wave file begins behind the
 former one, not within it

---
 formats/WAVE.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/formats/WAVE.hpp b/formats/WAVE.hpp
index 06e1f64..3f7f16f 100644
--- a/formats/WAVE.hpp
+++ b/formats/WAVE.hpp
@@ -26,7 +26,8 @@ struct WAVEGenericHeader {
 
   WAVEGenericHeader *Next() {
     return reinterpret_cast<WAVEGenericHeader *>(
-        reinterpret_cast<char *>(this) + chunkSize);
+        reinterpret_cast<char *>(this) + sizeof(WAVEGenericHeader) +
+        chunkSize);
   }
 };
 
-- 
2.43.0


From adc54d4e5c21e0ef61949a3c7b9b4a4f7d393031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:40 +0000
Subject: [PATCH 75/89] fix: the number of 87 or 88 macro arguments is not
 mixed up

---
 datas/macroLoop.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/macroLoop.hpp b/datas/macroLoop.hpp
index 22e6b1f..23a5b99 100644
--- a/datas/macroLoop.hpp
+++ b/datas/macroLoop.hpp
@@ -20,7 +20,7 @@
 #pragma once
 #define VA_NARGS_IMPL(_1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14,_15,_16,_17,_18,_19,_20,_21,_22,_23,_24,_25,_26,_27,_28,_29,_30,_31,_32,_33,_34,_35,_36,_37,_38,_39,_40,_41,_42,_43,_44,_45,_46,_47,_48,_49,_50,_51,_52,_53,_54,_55,_56,_57,_58,_59,_60,_61,_62,_63,_64,_65,_66,_67,_68,_69,_70,_71,_72,_73,_74,_75,_76,_77,_78,_79,_80,_81,_82,_83,_84,_85,_86,_87,_88,_89, N, ...) N
 #define VA_NARGS_EVAL(x) x
-#define VA_NARGS(...) VA_NARGS_EVAL(VA_NARGS_IMPL(__VA_ARGS__,89,87,88,86,85,84,83,82,81,80,79,78,77,76,75,74,73,72,71,70,69,68,67,66,65,64,63,62,61,60,59,58,57,56,55,54,53,52,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1))
+#define VA_NARGS(...) VA_NARGS_EVAL(VA_NARGS_IMPL(__VA_ARGS__,89,88,87,86,85,84,83,82,81,80,79,78,77,76,75,74,73,72,71,70,69,68,67,66,65,64,63,62,61,60,59,58,57,56,55,54,53,52,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1))
 
 #define _LOOPER_CAT1(c1,c2) c1##c2
 #define _LOOPER_CAT2(c1,c2) _LOOPER_CAT1(c1, c2)
-- 
2.43.0


From f2c33ab1af023aa97943c50113620ebad423e1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:55 +0000
Subject: [PATCH 76/89] fix: test macros judge a whole expression, not its
 first operand

---
 datas/unit_testing.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/datas/unit_testing.hpp b/datas/unit_testing.hpp
index 708f678..3f4975f 100644
--- a/datas/unit_testing.hpp
+++ b/datas/unit_testing.hpp
@@ -86,40 +86,40 @@ MasterPrinterThread &PrintCheckFailed(const A &aVal, const B &bVal,
   }
 
 #define TEST_CHECK(val)                                                        \
-  if (!val) {                                                                  \
+  if (!(val)) {                                                                \
     _CHECK_FAILED_TMP(#val);                                                   \
     return 1;                                                                  \
   }
 
 #define TEST_EQUAL(val1, val2)                                                 \
-  if (val1 != val2) {                                                          \
+  if ((val1) != (val2)) {                                                      \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " != ", __FILE__,           \
                          __LINE__);                                            \
     return 1;                                                                  \
   }
 
 #define TEST_GT(val1, val2)                                                    \
-  if (val1 <= val2) {                                                          \
+  if ((val1) <= (val2)) {                                                      \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " <= ", __FILE__,           \
                          __LINE__);                                            \
     return 1;                                                                  \
   }
 
 #define TEST_LT(val1, val2)                                                    \
-  if (val1 >= val2) {                                                          \
+  if ((val1) >= (val2)) {                                                      \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " >= ", __FILE__,           \
                          __LINE__);                                            \
     return 1;                                                                  \
   }
 
 #define TEST_GT_EQ(val1, val2)                                                 \
-  if (val1 < val2) {                                                           \
+  if ((val1) < (val2)) {                                                       \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " < ", __FILE__, __LINE__); \
     return 1;                                                                  \
   }
 
 #define TEST_LE_EQ(val1, val2)                                                 \
-  if (val1 > val2) {                                                           \
+  if ((val1) > (val2)) {                                                       \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " > ", __FILE__, __LINE__); \
     return 1;                                                                  \
   }
@@ -131,7 +131,7 @@ MasterPrinterThread &PrintCheckFailed(const A &aVal, const B &bVal,
   }
 
 #define TEST_NOT_EQUAL(val1, val2)                                             \
-  if (val1 == val2) {                                                          \
+  if ((val1) == (val2)) {                                                      \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " == ", __FILE__,           \
                          __LINE__);                                            \
     return 1;                                                                  \
-- 
2.43.0


From af86a603aadd424e43727850ce322966d85a4113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:58 +0000
Subject: [PATCH 77/89] fix: help of settings without descriptions does not
 crash

---
 datas/settings_manager.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/datas/settings_manager.hpp b/datas/settings_manager.hpp
index 04442ee..f2c295f 100644
--- a/datas/settings_manager.hpp
+++ b/datas/settings_manager.hpp
@@ -80,11 +80,10 @@ template <class Base> struct SettingsManager : public ReflectorBase<Base> {
 
     for (size_t i = 0; i < ref->nTypes; i++) {
       es::string_view elName = ref->typeNames[i];
-      auto elDesc = ref->typeDescs[i];
       fillIndent() << elName << std::endl;
 
-      if (!elDesc.part1.empty()) {
-        fillIndent(1) << elDesc.part1 << std::endl;
+      if (ref->typeDescs && !ref->typeDescs[i].part1.empty()) {
+        fillIndent(1) << ref->typeDescs[i].part1 << std::endl;
       }
 
       auto fl = ref->types[i];
-- 
2.43.0


From f84e1deaf3aff25a6fc63d14f9110840d80d7fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:01 +0000
Subject: [PATCH 78/89] fix: a log created again receives messages

---
 datas/settings_manager.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datas/settings_manager.hpp b/datas/settings_manager.hpp
index f2c295f..e28358d 100644
--- a/datas/settings_manager.hpp
+++ b/datas/settings_manager.hpp
@@ -45,6 +45,10 @@ template <class Base> struct SettingsManager : public ReflectorBase<Base> {
               &timeStruct);
     logName.append(std::to_string(dateBuffer));
     logName.append(".txt");
+    if (GetLogger().is_open()) {
+      GetLogger().close();
+    }
+
     GetLogger().open(ToTSTRING(logName), std::ios::out);
     printer.AddPrinterFunction(SettingsManager::printf, false);
 
-- 
2.43.0


From 487687b7c8818bce96797719ae0d2b868be9a003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:07 +0000
Subject: [PATCH 79/89] fix: Iterating a python list took a reference too few

---
 uni/python/pylist.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uni/python/pylist.hpp b/uni/python/pylist.hpp
index e757a5a..4f3a098 100644
--- a/uni/python/pylist.hpp
+++ b/uni/python/pylist.hpp
@@ -102,6 +102,7 @@ template <class Info> struct List {
 
   static PyObject *Iter(List *self) {
     self->iterPos = 0;
+    Py_INCREF(self);
     return reinterpret_cast<PyObject *>(self);
   }
 
-- 
2.43.0


From 92fe409aaeabe78629b78e7d8a86379316cc4f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:10 +0000
Subject: [PATCH 80/89] fix: Deallocated python objects of skeletons and
 motions left their memory behind

---
 uni/python/pylist.hpp     |  5 ++++-
 uni/python/pymotion.inl   |  8 ++++++--
 uni/python/pyskeleton.inl | 10 ++++++++--
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/uni/python/pylist.hpp b/uni/python/pylist.hpp
index 4f3a098..d134293 100644
--- a/uni/python/pylist.hpp
+++ b/uni/python/pylist.hpp
@@ -84,7 +84,10 @@ template <class Info> struct List {
     return &typeObject;
   }
 
-  static void Dealloc(List *self) { auto t0 = std::move(self->cList); }
+  static void Dealloc(List *self) {
+    { auto t0 = std::move(self->cList); }
+    Py_TYPE(self)->tp_free(reinterpret_cast<PyObject *>(self));
+  }
 
   static size_t Len(List *self) { return self->cList->Size(); }
 
diff --git a/uni/python/pymotion.inl b/uni/python/pymotion.inl
index 02dc731..4e1edaa 100644
--- a/uni/python/pymotion.inl
+++ b/uni/python/pymotion.inl
@@ -150,7 +150,8 @@ static PyTypeObject motionTrackType = {
 PyTypeObject *MotionTrack::GetType() { return &motionTrackType; }
 
 void MotionTrack::Dealloc(MotionTrack *self) {
-  auto t0 = std::move(self->item);
+  { auto t0 = std::move(self->item); }
+  Py_TYPE(self)->tp_free(reinterpret_cast<PyObject *>(self));
 }
 
 PyObject *MotionTrack::TrackType(MotionTrack *self) {
@@ -280,7 +281,10 @@ PyTypeObject *Motion::GetType() { return &motionType; }
 
 PyTypeObject *Motion::GetListType() { return MotionList::GetType(); }
 
-void Motion::Dealloc(Motion *self) { auto t0 = std::move(self->item); }
+void Motion::Dealloc(Motion *self) {
+  { auto t0 = std::move(self->item); }
+  Py_TYPE(self)->tp_free(reinterpret_cast<PyObject *>(self));
+}
 
 PyObject *Motion::MotionType(Motion *self) {
   return PyLong_FromSize_t(self->item->MotionType());
diff --git a/uni/python/pyskeleton.inl b/uni/python/pyskeleton.inl
index 8d09514..e5bfa32 100644
--- a/uni/python/pyskeleton.inl
+++ b/uni/python/pyskeleton.inl
@@ -114,7 +114,10 @@ static PyTypeObject boneType = {
 
 PyTypeObject *Bone::GetType() { return &boneType; }
 
-void Bone::Dealloc(Bone *self) { auto t0 = std::move(self->item); }
+void Bone::Dealloc(Bone *self) {
+  { auto t0 = std::move(self->item); }
+  Py_TYPE(self)->tp_free(reinterpret_cast<PyObject *>(self));
+}
 
 PyObject *Bone::GetTMType(Bone *self) {
   return PyLong_FromLong(self->item->TMType());
@@ -218,7 +221,10 @@ static PyTypeObject skeletonType = {
 
 PyTypeObject *Skeleton::GetType() { return &skeletonType; }
 
-void Skeleton::Dealloc(Skeleton *self) { auto t0 = std::move(self->item); }
+void Skeleton::Dealloc(Skeleton *self) {
+  { auto t0 = std::move(self->item); }
+  Py_TYPE(self)->tp_free(reinterpret_cast<PyObject *>(self));
+}
 
 PyObject *Skeleton::Name(Skeleton *self) {
   auto skName = self->item->Name();
-- 
2.43.0


From e1fd45d96d3de5998e1c1511301d3a9c61357eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:12 +0000
Subject: [PATCH 81/89] fix: Python lists did not report items out of range

---
 uni/python/pylist.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/uni/python/pylist.hpp b/uni/python/pylist.hpp
index d134293..6269310 100644
--- a/uni/python/pylist.hpp
+++ b/uni/python/pylist.hpp
@@ -97,6 +97,11 @@ template <class Info> struct List {
   }
 
   PyObject *SubscriptRaw(size_t index) {
+    if (index >= cList->Size()) {
+      PyErr_SetString(PyExc_IndexError, "index out of range");
+      return nullptr;
+    }
+
     wrap_type *rtVal = reinterpret_cast<wrap_type *>(
         PyType_GenericAlloc(wrap_type::GetType(), 0));
     rtVal->item = cList->At(index);
-- 
2.43.0


From c9203f8e18204a3306c1397470951dfd9f62ca8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:16 +0000
Subject: [PATCH 82/89] fix: Python enums returned no error for unknown names

---
 datas/python/reflected_enum.hpp | 4 +++-
 uni/python/pyenum.hpp           | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/datas/python/reflected_enum.hpp b/datas/python/reflected_enum.hpp
index 8d87cda..ff73cb6 100644
--- a/datas/python/reflected_enum.hpp
+++ b/datas/python/reflected_enum.hpp
@@ -101,8 +101,10 @@ template <class E, const char *const doc = nullptr> struct ReflectedEnumPy {
     const auto foundEnum =
         std::find(GetEnum().begin(), GetEnum().end(), attrName);
 
-    if (es::IsEnd(GetEnum(), foundEnum))
+    if (es::IsEnd(GetEnum(), foundEnum)) {
+      PyErr_SetString(PyExc_AttributeError, attrName);
       return nullptr;
+    }
 
     const size_t fndID = std::distance(GetEnum().begin(), foundEnum);
 
diff --git a/uni/python/pyenum.hpp b/uni/python/pyenum.hpp
index 6debf8f..f6faf64 100644
--- a/uni/python/pyenum.hpp
+++ b/uni/python/pyenum.hpp
@@ -101,6 +101,7 @@ template <class Info> struct Enum {
                                         });
 
     if (foundEnum == Info::end()) {
+      PyErr_SetString(PyExc_AttributeError, attrName);
       return nullptr;
     }
 
-- 
2.43.0


From 297c36c74eb3f253656476aef1271639e3a176bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:22 +0000
Subject: [PATCH 83/89] fix: Python reflected enums read items out of range

---
 datas/python/reflected_enum.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datas/python/reflected_enum.hpp b/datas/python/reflected_enum.hpp
index ff73cb6..ad57585 100644
--- a/datas/python/reflected_enum.hpp
+++ b/datas/python/reflected_enum.hpp
@@ -93,6 +93,11 @@ template <class E, const char *const doc = nullptr> struct ReflectedEnumPy {
   }
 
   static PyObject *SubscriptRaw(size_t index) {
+    if (index >= GetEnum().size()) {
+      PyErr_SetString(PyExc_IndexError, "index out of range");
+      return nullptr;
+    }
+
     auto eName = GetEnum()[index];
     return PyString_FromStringAndSize(eName.data(), eName.size());
   }
-- 
2.43.0


From 3895918ba01efa20aa35c6267e07bf2597865d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:25 +0000
Subject: [PATCH 84/89] fix: Setting python motion framerate ignored errors

---
 uni/python/pymotion.inl | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/uni/python/pymotion.inl b/uni/python/pymotion.inl
index 4e1edaa..b42519e 100644
--- a/uni/python/pymotion.inl
+++ b/uni/python/pymotion.inl
@@ -308,7 +308,18 @@ PyObject *Motion::FrameRate(Motion *self) {
 }
 
 int Motion::SetFrameRate(Motion *self, PyObject *var) {
-  self->sitem->FrameRate(PyLong_AsLong(var));
+  if (!var) {
+    PyErr_SetString(PyExc_TypeError, "framerate cannot be deleted");
+    return -1;
+  }
+
+  const auto frameRate = PyLong_AsLong(var);
+
+  if (frameRate == -1 && PyErr_Occurred()) {
+    return -1;
+  }
+
+  self->sitem->FrameRate(frameRate);
   return 0;
 }
 
-- 
2.43.0


From 529ad28b401754d21b1037ede953d4ae8d53d1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:27 +0000
Subject: [PATCH 85/89] fix: Python motion track values ignored invalid times

---
 uni/python/pymotion.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/uni/python/pymotion.inl b/uni/python/pymotion.inl
index b42519e..5bdd9e4 100644
--- a/uni/python/pymotion.inl
+++ b/uni/python/pymotion.inl
@@ -176,6 +176,10 @@ PyObject *MotionTrack::GetValues(MotionTrack *self, PyObject *index) {
     t = static_cast<float>(PyFloat_AsDouble(*cObj++));
   }
 
+  if (PyErr_Occurred()) {
+    return nullptr;
+  }
+
   auto retList = PyList_New(times.size());
   size_t curItem = 0;
 
-- 
2.43.0


From e4d1075af561a7de403a25470df60c204b4cbbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:29 +0000
Subject: [PATCH 86/89] fix: Python motion tracks of unknown types left their
 result list behind

---
 uni/python/pymotion.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uni/python/pymotion.inl b/uni/python/pymotion.inl
index 5bdd9e4..3399e85 100644
--- a/uni/python/pymotion.inl
+++ b/uni/python/pymotion.inl
@@ -220,7 +220,8 @@ PyObject *MotionTrack::GetValues(MotionTrack *self, PyObject *index) {
     break;
   }
   default:
-    return Py_None;
+    Py_DECREF(retList);
+    Py_RETURN_NONE;
   }
 
   return retList;
-- 
2.43.0


From 32ded2ac26edd3c65f903aa2924136ce07c6256b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:06 +0000
Subject: [PATCH 87/89] fix: BinReader and BinWritter could not open another
 file

---
 datas/internal/bincore_file.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/datas/internal/bincore_file.hpp b/datas/internal/bincore_file.hpp
index 3aaa921..2265bae 100644
--- a/datas/internal/bincore_file.hpp
+++ b/datas/internal/bincore_file.hpp
@@ -29,6 +29,9 @@ protected:
   }
 
   bool Open_(const char *_fileName) {
+    if (FileStream.is_open())
+      FileStream.close();
+
 #if defined(UNICODE) && defined(_MSC_VER)
     FileStream.open(es::ToUTF1632(_fileName), MODE);
 #else
@@ -39,6 +42,9 @@ protected:
   }
 
   bool Open_(const std::string &_fileName) {
+    if (FileStream.is_open())
+      FileStream.close();
+
 #if defined(UNICODE) && defined(_MSC_VER)
     FileStream.open(es::ToUTF1632(_fileName), MODE);
 #else
-- 
2.43.0


From 832231cda7fb12cd67e1a9bcae6e4d5599613ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:41 +0000
Subject: [PATCH 88/89] fix: Moved BinReader and BinWritter kept using the
 stream of the former object

---
 datas/binreader.hpp  | 6 +++++-
 datas/binwritter.hpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/datas/binreader.hpp b/datas/binreader.hpp
index 3ef4984..a556b53 100644
--- a/datas/binreader.hpp
+++ b/datas/binreader.hpp
@@ -37,7 +37,11 @@ public:
   }
   BinReader(const char *filePath) { OpenFile(filePath); }
   BinReader(const BinReader &) = delete;
-  BinReader(BinReader &&) = default;
+  BinReader(BinReader &&other)
+      : BinReaderRef(std::move(other)), BinStreamFile(std::move(other)) {
+    if (this->baseStream == &other.FileStream)
+      this->baseStream = &this->FileStream;
+  }
   BinReader &operator=(const BinReader &other) = delete;
 
   void Open(const std::string &filePath) { OpenFile(filePath); }
diff --git a/datas/binwritter.hpp b/datas/binwritter.hpp
index 155b74b..37008f1 100644
--- a/datas/binwritter.hpp
+++ b/datas/binwritter.hpp
@@ -38,7 +38,11 @@ public:
   BinWritter(const char *filePath) { OpenFile(filePath); }
 
   BinWritter(const BinWritter &rd) = delete;
-  BinWritter(BinWritter &&) = default;
+  BinWritter(BinWritter &&other)
+      : BinWritterRef(std::move(other)), BinStreamFile(std::move(other)) {
+    if (this->baseStream == &other.FileStream)
+      this->baseStream = &this->FileStream;
+  }
   BinWritter &operator=(const BinWritter &other) = delete;
 
   void Open(const std::string &filePath) { OpenFile(filePath); }
-- 
2.43.0


From b9e1ed6ab5f65f69a06f30224659f1467a9461e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:47 +0000
Subject: [PATCH 89/89] fix: Last item of array text was lost when it held an
 unclosed bracket

---
 datas/reflector.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 4ec9d3f..8be07a0 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -392,7 +392,11 @@ static Reflector::ErrorType SetReflectedArray(char startBrace, char endBrace,
     } else if (localScope || *it == '[' || *it == '"' || *it == '(' ||
                *it == '{') {
       localScope = true;
-      continue;
+
+      // the last element is one, even if it is not closed
+      if (!isEnding) {
+        continue;
+      }
     }
 
     if (*it == ',' || isEnding) {
-- 
2.43.0

