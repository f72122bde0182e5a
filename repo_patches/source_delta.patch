From 79444170f277dd767cdf9bba2829e7d1dc576722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:48 +0000
Subject: [PATCH 01/38] fix: IMUL of the minimal value and -1 killed the VM
 with SIGFPE

The overflow check divided the product back by -1, which traps.
---
 src/t86/cpu/alu.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/t86/cpu/alu.cpp b/src/t86/cpu/alu.cpp
index 4132f59..3536ce0 100644
--- a/src/t86/cpu/alu.cpp
+++ b/src/t86/cpu/alu.cpp
@@ -80,7 +80,9 @@ namespace tiny::t86::Alu {
         bool signFlag = result < 0;
         bool zeroFlag = result == 0;
         bool carryFlag = false;
-        bool overflowFlag = x != 0 && y != 0 && x != result / y;
+        // Dividing the minimal value by -1 would trap
+        bool overflowFlag = y == -1 ? x == std::numeric_limits<int64_t>::min()
+                                    : x != 0 && y != 0 && x != result / y;
         return Result{result, Flags{signFlag, zeroFlag, carryFlag, overflowFlag}};
     }
 
-- 
2.43.0


From bef4a20fe7c07550d81f99712f51f22ff1a7edd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:48 +0000
Subject: [PATCH 02/38] fix: LSH and RSH by 0, by 64 and more, or by a negative
 count were undefined behaviour

---
 src/t86/cpu/alu.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/t86/cpu/alu.cpp b/src/t86/cpu/alu.cpp
index 3536ce0..2859a37 100644
--- a/src/t86/cpu/alu.cpp
+++ b/src/t86/cpu/alu.cpp
@@ -132,12 +132,14 @@ namespace tiny::t86::Alu {
     }
 
     Result bit_left_shift(int64_t x, int64_t y) {
-        int64_t result = x << y;
+        // A count of 64 or more (or a negative one) shifts every bit out
+        bool inRange = y >= 0 && y < 64;
+        int64_t result = inRange ? x << y : 0;
         bool signFlag = result < 0;
         bool zeroFlag = result == 0;
         bool overflowFlag = false;
         bool carryFlag = false;
-        if (y <= 64) {
+        if (y > 0 && y <= 64) {
             // the most significant bit before the last shift
             carryFlag = (x << (y - 1)) < 0;
         }
@@ -145,12 +147,14 @@ namespace tiny::t86::Alu {
     }
 
     Result bit_right_shift(int64_t x, int64_t y) {
-        int64_t result = x >> y;
+        // A count of 64 or more (or a negative one) leaves only the sign
+        bool inRange = y >= 0 && y < 64;
+        int64_t result = inRange ? x >> y : x >> 63;
         bool signFlag = result < 0;
         bool zeroFlag = result == 0;
         bool overflowFlag = false;
         bool carryFlag = false;
-        if (y <= 64) {
+        if (y > 0 && y <= 64) {
             // the most significant bit before the last shift
             carryFlag = ((x >> (y - 1)) & 1) != 0;
         }
-- 
2.43.0


From 36c484d3b24a34d92cfc24f905df652ea646dc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:18 +0000
Subject: [PATCH 03/38] fix: DIV, IDIV and MOD by zero killed the VM with
 SIGFPE, even when only speculated

A zero divisor is now reported as an execution error when the instruction
retires, and IDIV/MOD of the minimal value by -1 no longer trap.
---
 src/t86/cpu/alu.cpp                 | 15 +++++++++++++--
 src/t86/cpu/reservation_station.cpp | 11 ++++++++++-
 src/t86/cpu/reservation_station.h   |  1 +
 src/t86/execution_error.h           |  1 +
 4 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/t86/cpu/alu.cpp b/src/t86/cpu/alu.cpp
index 2859a37..f663e73 100644
--- a/src/t86/cpu/alu.cpp
+++ b/src/t86/cpu/alu.cpp
@@ -1,4 +1,5 @@
 #include "alu.h"
+#include "../execution_error.h"
 
 #include <limits>
 #include <cmath>
@@ -66,6 +67,9 @@ namespace tiny::t86::Alu {
     Result divide(int64_t x, int64_t y) {
         uint64_t ux = static_cast<uint64_t>(x);
         uint64_t uy = static_cast<uint64_t>(y);
+        if (uy == 0) {
+            throw T86ExecutionError("Division by zero");
+        }
         uint64_t uresult = ux / uy;
         int64_t result = static_cast<int64_t>(uresult);
         bool signFlag = result < 0;
@@ -87,7 +91,11 @@ namespace tiny::t86::Alu {
     }
 
     Result signed_divide(int64_t x, int64_t y) {
-        int64_t result = x / y;
+        if (y == 0) {
+            throw T86ExecutionError("Division by zero");
+        }
+        // The minimal value divided by -1 wraps around
+        int64_t result = y == -1 ? static_cast<int64_t>(-static_cast<uint64_t>(x)) : x / y;
         bool signFlag = result < 0;
         bool zeroFlag = result == 0;
         bool overflowFlag = false;
@@ -180,7 +188,10 @@ namespace tiny::t86::Alu {
     
     // TODO Remove after testing
     Result mod(int64_t x, int64_t y) {
-        int64_t result = x % y;
+        if (y == 0) {
+            throw T86ExecutionError("Division by zero");
+        }
+        int64_t result = y == -1 ? 0 : x % y;
         bool signFlag = result < 0;
         bool zeroFlag = result == 0;
         bool carryFlag = false;
diff --git a/src/t86/cpu/reservation_station.cpp b/src/t86/cpu/reservation_station.cpp
index e0ec5cf..4d8a758 100644
--- a/src/t86/cpu/reservation_station.cpp
+++ b/src/t86/cpu/reservation_station.cpp
@@ -275,7 +275,13 @@ namespace tiny::t86 {
         }
         // This is done "two-steps" because some instructions might have zero execution tickCount required
         if (remainingExecutionTime_ == 0) {
-            instruction_->execute(*this);
+            try {
+                instruction_->execute(*this);
+            } catch (...) {
+                // Same as with illegal reads, the instruction may be executed
+                // only speculatively, so wait with the exception until retire.
+                executionException_ = std::current_exception();
+            }
             state_ = State::retiring;
             return true;
         }
@@ -303,6 +309,9 @@ namespace tiny::t86 {
     }
 
     void ReservationStation::Entry::retire() {
+        if (executionException_) {
+            std::rethrow_exception(executionException_);
+        }
         instruction_->retire(*this);
         // delay throwing illegal read exception until we know that the instruction will be executed
         if (memoryAccessException_) {
diff --git a/src/t86/cpu/reservation_station.h b/src/t86/cpu/reservation_station.h
index a238f05..9dc4257 100644
--- a/src/t86/cpu/reservation_station.h
+++ b/src/t86/cpu/reservation_station.h
@@ -173,5 +173,6 @@ namespace tiny::t86 {
         std::size_t loggingId_;
 
         std::exception_ptr memoryAccessException_;
+        std::exception_ptr executionException_;
     };
 }
diff --git a/src/t86/execution_error.h b/src/t86/execution_error.h
index e1a08b8..fb127fc 100644
--- a/src/t86/execution_error.h
+++ b/src/t86/execution_error.h
@@ -1,3 +1,4 @@
+#pragma once
 #include <exception>
 #include <string>
 
-- 
2.43.0


From 62df1edc24d8fabf892a54586686d37eafd80f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:20 +0000
Subject: [PATCH 04/38] fix: LEA with a [R1 + R2] operand read past the end of
 the operand list

---
 src/t86/instruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t86/instruction.cpp b/src/t86/instruction.cpp
index 07bc03e..7f02513 100644
--- a/src/t86/instruction.cpp
+++ b/src/t86/instruction.cpp
@@ -676,7 +676,7 @@ INS_NAME::INS_NAME(Operand address) : ConditionalJumpInstruction([](Alu::Flags f
             assert(operands.size() == 2);
             address = Operand::supply(
                     Operand::supply(mem_.getMemoryRegisterRegister(), operands[0].getValue()),
-                    operands[2].getValue()
+                    operands[1].getValue()
             ).index();
         }
         else if (mem_.isMemoryRegisterOffsetRegister()) {
-- 
2.43.0


From 390e60654aba7f0878c403c26c7ceb580109a9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:39 +0000
Subject: [PATCH 05/38] fix: references to pending memory writes dangled once a
 second write to the same address was added

---
 .../cpu/memory_writes_manager/memory_writes.cpp    |  4 ++--
 src/t86/cpu/memory_writes_manager/memory_writes.h  | 14 ++++++++------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/t86/cpu/memory_writes_manager/memory_writes.cpp b/src/t86/cpu/memory_writes_manager/memory_writes.cpp
index 9526ca3..2676d90 100644
--- a/src/t86/cpu/memory_writes_manager/memory_writes.cpp
+++ b/src/t86/cpu/memory_writes_manager/memory_writes.cpp
@@ -4,11 +4,11 @@
 #include <algorithm>
 
 namespace tiny::t86 {
-    std::vector<MemoryWrite>::iterator MemoryWrites::find(MemoryWrite::Id id) {
+    std::list<MemoryWrite>::iterator MemoryWrites::find(MemoryWrite::Id id) {
         return std::lower_bound(writes_.begin(), writes_.end(), id, comp);
     }
 
-    std::vector<MemoryWrite>::const_iterator MemoryWrites::find(MemoryWrite::Id id) const {
+    std::list<MemoryWrite>::const_iterator MemoryWrites::find(MemoryWrite::Id id) const {
         return std::lower_bound(writes_.begin(), writes_.end(), id, comp);
     }
 
diff --git a/src/t86/cpu/memory_writes_manager/memory_writes.h b/src/t86/cpu/memory_writes_manager/memory_writes.h
index 9edf239..f42127f 100644
--- a/src/t86/cpu/memory_writes_manager/memory_writes.h
+++ b/src/t86/cpu/memory_writes_manager/memory_writes.h
@@ -2,7 +2,9 @@
 
 #include <utility>
 #include <optional>
+#include <list>
 #include <set>
+#include <vector>
 
 #include "../../ram.h"
 #include "memory_write.h"
@@ -43,14 +45,14 @@ namespace tiny::t86 {
             return e.id() > i;
         }
 
-        // This vector is sorted using comp function, so that we can find writes
+        // This list is sorted using comp function, so that we can find writes
         // with id up to some value
-        // List would have slow lookup times, but better insertions
+        // It has to be a list, because references to its elements
+        // are kept (see MemoryWritesManager) while others are added and removed
         // Set does not allow modifications of it's elements once inserted
-        // Might change to list in the future after some benchmarking
-        std::vector<MemoryWrite> writes_;
+        std::list<MemoryWrite> writes_;
 
-        std::vector<MemoryWrite>::iterator find(MemoryWrite::Id id);
-        std::vector<MemoryWrite>::const_iterator find(MemoryWrite::Id id) const;
+        std::list<MemoryWrite>::iterator find(MemoryWrite::Id id);
+        std::list<MemoryWrite>::const_iterator find(MemoryWrite::Id id) const;
     };
 }
-- 
2.43.0


From 0e73d83446a029db91d33a6cad11efb4e7eaa9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:34 +0000
Subject: [PATCH 06/38] fix: PUTNUM truncated the register to 32 bits

---
 src/t86/instruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t86/instruction.cpp b/src/t86/instruction.cpp
index 7f02513..5b179cd 100644
--- a/src/t86/instruction.cpp
+++ b/src/t86/instruction.cpp
@@ -715,7 +715,7 @@ INS_NAME::INS_NAME(Operand address) : ConditionalJumpInstruction([](Alu::Flags f
     void PUTNUM::retire(ReservationStation::Entry& entry) const {
         const auto& operands = entry.operands();
         assert(operands.size() == 1);
-        os_ << static_cast<int>(operands[0].getValue()) << std::endl;
+        os_ << operands[0].getValue() << std::endl;
     }
 
     void GETCHAR::retire(ReservationStation::Entry& entry) const {
-- 
2.43.0


From 7d5a5236c00bb25501ebe864c9013cd54b38f2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:57 +0000
Subject: [PATCH 07/38] fix: parse immediates in their full 64-bit range

---
 src/common/parsing.cpp         | 14 +++++++++++--
 src/common/parsing.h           |  8 ++++++--
 src/debugger/Source/Parser.cpp |  2 +-
 src/t86-parser/parser.cpp      | 36 ++++++++++++++++++----------------
 4 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/src/common/parsing.cpp b/src/common/parsing.cpp
index ec2cc2a..ca346a6 100644
--- a/src/common/parsing.cpp
+++ b/src/common/parsing.cpp
@@ -14,10 +14,20 @@ TokenKind Lexer::ParseNumber() {
         num += lookahead;
     }
     if (is_float) {
-        float_number = std::stod(num);
+        float_number = std::strtod(num.c_str(), nullptr);
         return TokenKind::FLOAT;
     } else {
-        number = std::stoi(num);
+        // The magnitude of the smallest 64 bit number does not fit into
+        // int64_t, getNumber wraps it so that negating it works.
+        try {
+            number = std::stoull(num);
+        } catch (const std::out_of_range&) {
+            number = std::numeric_limits<uint64_t>::max();
+        }
+        if (number > uint64_t{1} << 63) {
+            throw ParserError(fmt::format("{}:{}:Number '{}' is out of range",
+                                          tok_begin_row, tok_begin_col, num));
+        }
         return TokenKind::NUM;
     }
 }
diff --git a/src/common/parsing.h b/src/common/parsing.h
index 7f46a62..e85eba9 100644
--- a/src/common/parsing.h
+++ b/src/common/parsing.h
@@ -1,4 +1,8 @@
 #pragma once
+#include <cstdint>
+#include <cstdlib>
+#include <limits>
+#include <stdexcept>
 #include <optional>
 #include <variant>
 #include <iostream>
@@ -93,7 +97,7 @@ public:
     }
 
     std::string getId() const { return id; }
-    int getNumber() const noexcept { return number; }
+    int64_t getNumber() const noexcept { return static_cast<int64_t>(number); }
     double getFloat() const noexcept { return float_number; }
     std::string getStr() const noexcept { return str; }
 private:
@@ -138,7 +142,7 @@ private:
     size_t tok_begin_row{0};
     size_t tok_begin_col{0};
 
-    int number{-1};
+    uint64_t number{0};
     double float_number{-1};
     std::string id;
     std::string str;
diff --git a/src/debugger/Source/Parser.cpp b/src/debugger/Source/Parser.cpp
index f65690e..5c201c6 100644
--- a/src/debugger/Source/Parser.cpp
+++ b/src/debugger/Source/Parser.cpp
@@ -93,7 +93,7 @@ expr::Offset Parser::ParseOffset() {
         GetNext();
     }
     if (curtok.kind == TokenKind::NUM) {
-        auto num = neg * lex.getNumber();
+        auto num = static_cast<int64_t>(neg * static_cast<uint64_t>(lex.getNumber()));
         GetNext();
         return expr::Offset{num};
     } else {
diff --git a/src/t86-parser/parser.cpp b/src/t86-parser/parser.cpp
index c4c62a4..2f6f425 100644
--- a/src/t86-parser/parser.cpp
+++ b/src/t86-parser/parser.cpp
@@ -73,15 +73,24 @@ tiny::t86::FloatRegister Parser::FloatRegister() {
     }
 }
 
+/// Wraps around instead of overflowing.
+static int64_t Negate(int64_t val) {
+    return static_cast<int64_t>(-static_cast<uint64_t>(val));
+}
+
 /// Allows only immediate as operand
 int64_t Parser::Imm() {
     if (IsNumber(curtok) || curtok.kind == TokenKind::MINUS) {
-        int neg = 1;
-        if (curtok.kind == TokenKind::MINUS) {
-            neg = -1;
-            GetNext();
+        bool neg = curtok.kind == TokenKind::MINUS;
+        if (neg && GetNext() != TokenKind::NUM) {
+            throw CreateError("Expected i");
+        }
+        int64_t val = lex.getNumber();
+        if (neg) {
+            val = Negate(val);
+        } else if (val < 0) {
+            throw CreateError("Immediate is out of range");
         }
-        auto val = neg * lex.getNumber();
         GetNext();
         return val;
     } else {
@@ -115,12 +124,6 @@ tiny::t86::Operand Parser::ImmOrRegister() {
         return Register();
     } else if (IsNumber(curtok)) {
         return Imm();
-    } else if (curtok.kind == TokenKind::MINUS) {
-        if (GetNext() == TokenKind::NUM) {
-            return -Imm();
-        } else {
-            throw CreateError("Expected either i or R");
-        }
     } else {
         throw CreateError("Expected either i or R");
     }
@@ -138,7 +141,7 @@ tiny::t86::Operand Parser::ImmOrRegisterOrRegisterPlusImm() {
             return reg + imm;
         } else if (curtok.kind == TokenKind::MINUS) {
             GetNext();
-            auto imm = -Imm();
+            auto imm = Negate(Imm());
             return reg + imm;
         }
         return reg;
@@ -158,7 +161,7 @@ tiny::t86::Operand Parser::SimpleMemory() {
                 GetNext();
                 auto imm = Imm();
                 if (minus) {
-                    imm = -imm;
+                    imm = Negate(imm);
                 }
                 if (curtok.kind != TokenKind::RBRACKET) {
                     throw CreateError("Expected end of ']'");
@@ -226,9 +229,8 @@ tiny::t86::Operand Parser::Memory() {
     if (curtok.kind == TokenKind::LBRACKET) {
         GetNext();
         // Must be [i]
-        if (IsNumber(curtok)) {
-            auto imm = lex.getNumber();
-            GetNext();
+        if (curtok.kind == TokenKind::NUM) {
+            auto imm = Imm();
             result = Mem(imm);
         } else if (curtok.kind == TokenKind::ID) {
             auto regname1 = lex.getId();
@@ -241,7 +243,7 @@ tiny::t86::Operand Parser::Memory() {
                 if (IsNumber(curtok)) {
                     auto imm1 = Imm();
                     if (minus) {
-                        imm1 = -imm1;
+                        imm1 = Negate(imm1);
                     }
                     // Can be either [R + i + R] or [R + i + R * i]
                     if (curtok.kind == TokenKind::PLUS) {
-- 
2.43.0


From 354b0d3f80e05be08eb8dc2117812999151a379a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:57 +0000
Subject: [PATCH 08/38] fix: reject malformed [R - R] and [R + R * x] operands

---
 src/t86-parser/parser.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/t86-parser/parser.cpp b/src/t86-parser/parser.cpp
index 2f6f425..5a95ffa 100644
--- a/src/t86-parser/parser.cpp
+++ b/src/t86-parser/parser.cpp
@@ -268,17 +268,18 @@ tiny::t86::Operand Parser::Memory() {
                     } else {
                         result = Mem(reg1 + imm1);
                     }
-                } else if (curtok.kind == TokenKind::ID) {
+                } else if (curtok.kind == TokenKind::ID && !minus) {
                     auto regname2 = lex.getId();
                     auto reg2 = getRegister(regname2);
                     GetNext();
                     // Must be [R + R * i]
                     if (curtok.kind == TokenKind::TIMES) {
                         GetNext();
-                        if (IsNumber(curtok)) {
-                            auto imm = Imm();
-                            result = Mem(reg1 + reg2 * imm);
+                        if (!IsNumber(curtok)) {
+                            throw CreateError("Expected 'i'");
                         }
+                        auto imm = Imm();
+                        result = Mem(reg1 + reg2 * imm);
                     // Must be [R + R]
                     } else {
                         result = Mem(reg1 + reg2);
-- 
2.43.0


From 1ce26afe471d688217e249208304805ab447118c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:12 +0000
Subject: [PATCH 09/38] fix: float immediates survive printing and parsing,
 negative ones are accepted

---
 src/t86-parser/parser.cpp        | 21 ++++++++++++++++++---
 src/t86/instructions/operand.cpp | 14 +++++++++++++-
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/t86-parser/parser.cpp b/src/t86-parser/parser.cpp
index 5a95ffa..b8bacc5 100644
--- a/src/t86-parser/parser.cpp
+++ b/src/t86-parser/parser.cpp
@@ -99,8 +99,12 @@ int64_t Parser::Imm() {
 }
 
 tiny::t86::Operand Parser::FloatImm() {
+    bool neg = curtok.kind == TokenKind::MINUS;
+    if (neg) {
+        GetNext();
+    }
     if (curtok.kind == TokenKind::FLOAT) {
-        double val = lex.getFloat();
+        double val = neg ? -lex.getFloat() : lex.getFloat();
         GetNext();
         return tiny::t86::Operand(val);
     } else {
@@ -111,7 +115,7 @@ tiny::t86::Operand Parser::FloatImm() {
 tiny::t86::Operand Parser::FloatImmOrRegister() {
     if (curtok.kind == TokenKind::ID) {
         return FloatRegister();
-    } else if (curtok.kind == TokenKind::FLOAT) {
+    } else if (curtok.kind == TokenKind::FLOAT || curtok.kind == TokenKind::MINUS) {
         return FloatImm();
     } else {
         throw CreateError("Expected either f or F");
@@ -325,7 +329,18 @@ tiny::t86::Operand Parser::Operand() {
         } else {
             return Register();
         }
-    } else if (IsNumber(curtok)) {
+    } else if (curtok.kind == TokenKind::MINUS) {
+        if (GetNext() == TokenKind::FLOAT) {
+            double val = -lex.getFloat();
+            GetNext();
+            return tiny::t86::Operand(val);
+        } else if (curtok.kind != TokenKind::NUM) {
+            throw CreateError("Expected either i or f");
+        }
+        int64_t val = Negate(lex.getNumber());
+        GetNext();
+        return val;
+    } else if (curtok.kind == TokenKind::NUM) {
         return Imm();
     } else if (curtok.kind == TokenKind::FLOAT) {
         return FloatImm();
diff --git a/src/t86/instructions/operand.cpp b/src/t86/instructions/operand.cpp
index c4bbc97..e5515b1 100644
--- a/src/t86/instructions/operand.cpp
+++ b/src/t86/instructions/operand.cpp
@@ -3,6 +3,7 @@
 #include "helpers.h"
 
 #include <cassert>
+#include <charconv>
 
 
 namespace tiny::t86 {
@@ -383,6 +384,17 @@ namespace tiny::t86 {
         throw std::runtime_error("Unhandled operand type");
     }
 
+    /// Decimal notation that parses back into exactly the same value.
+    static std::string floatToString(double val) {
+        char buf[512];
+        auto res = std::to_chars(buf, buf + sizeof(buf), val, std::chars_format::fixed);
+        std::string str(buf, res.ptr);
+        if (str.find('.') == str.npos) {
+            str += ".0";
+        }
+        return str;
+    }
+
     std::string Operand::toString() const {
         if (isValue()) {
             return std::to_string(getValue());
@@ -417,7 +429,7 @@ namespace tiny::t86 {
         } else if (isMemoryRegisterOffsetRegisterScaled()) {
             return getMemoryRegisterOffsetRegisterScaled().toString();
         } else if (isFloatValue()) {
-            return std::to_string(getFloatValue());
+            return floatToString(getFloatValue());
         } else if (isFloatRegister()) {
             return getFloatRegister().toString();
         }
-- 
2.43.0


From b9934f4ca94abbd9d82a50b3a65233516a86ed57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:45 +0000
Subject: [PATCH 10/38] fix: removing a watchpoint deactivates it in the
 machine

---
 src/debugger/Native.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index e2b1d8b..fac40ef 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -377,12 +377,13 @@ void Native::SetWatchpointWrite(uint64_t address) {
 void Native::RemoveWatchpoint(uint64_t address) {
     auto wp = watchpoints.find(address);
     if (wp == watchpoints.end()) {
-        throw DebuggerError("A watchpoint is already set on that address.");
+        throw DebuggerError("No watchpoint is set on that address.");
     }
     
     auto dbg_regs = process->FetchDebugRegisters();
     Arch::DeactivateDebugRegister(wp->second.hw_reg, dbg_regs);
-    watchpoints.erase(address); 
+    process->SetDebugRegisters(dbg_regs);
+    watchpoints.erase(wp);
 }
 
 const std::map<uint64_t, Watchpoint>& Native::GetWatchpoints() {
-- 
2.43.0


From ba150185a85c6cfae7804863ecbc0510c5cf2be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:45 +0000
Subject: [PATCH 11/38] fix: SetAllWatchpoints erased from the map it iterated
 over

---
 src/debugger/Native.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index fac40ef..9441c91 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -273,8 +273,8 @@ void Native::SetAllBreakpoints(std::map<uint64_t, SoftwareBreakpoint> bkpts) {
 }
 
 void Native::SetAllWatchpoints(std::map<uint64_t, Watchpoint> watchpoints) {
-    for (auto&& wp: this->watchpoints) {
-        RemoveWatchpoint(wp.first);
+    while (!this->watchpoints.empty()) {
+        RemoveWatchpoint(this->watchpoints.begin()->first);
     }
 
     for (auto&& wp: watchpoints) {
-- 
2.43.0


From 7662ff749e20c871d9814ee79f1f04ee12572c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:45 +0000
Subject: [PATCH 12/38] fix: SetAllBreakpoints kept the breakpoints it was to
 replace

---
 src/debugger/Native.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index 9441c91..7893f95 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -258,8 +258,8 @@ void Native::SetRegister(const std::string& name, int64_t value) {
 
 void Native::SetAllBreakpoints(std::map<uint64_t, SoftwareBreakpoint> bkpts) {
     // Unset existing breakpoints
-    for (auto&& bp: software_breakpoints) {
-        DisableSoftwareBreakpoint(bp.first);
+    while (!software_breakpoints.empty()) {
+        UnsetBreakpoint(software_breakpoints.begin()->first);
     }
 
     for (auto&& breakpoint: bkpts) {
-- 
2.43.0


From d3a1a9ae56cc8a7a3c94d9136c82cdea5a554bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:45 +0000
Subject: [PATCH 13/38] fix: reading and writing text treated disabled
 breakpoints as enabled

---
 src/debugger/Native.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index 7893f95..252d6a7 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -64,7 +64,7 @@ std::vector<std::string> Native::ReadText(uint64_t address, size_t amount) {
     auto text = process->ReadText(address, amount);
     for (size_t i = 0; i < text.size(); ++i) {
         auto it = software_breakpoints.find(i + address);
-        if (it != software_breakpoints.end()) {
+        if (it != software_breakpoints.end() && it->second.enabled) {
             text.at(i) = it->second.data;
         }
     }
@@ -85,7 +85,7 @@ void Native::WriteText(uint64_t address, std::vector<std::string> text) {
     for (size_t i = 0; i < text.size(); ++i) {
         uint64_t curr_addr = i + address;
         auto bp = software_breakpoints.find(curr_addr);
-        if (bp != software_breakpoints.end()) {
+        if (bp != software_breakpoints.end() && bp->second.enabled) {
             bp->second.data = text[i];
             text[i] = GetSoftwareBreakpointOpcode();
         }
-- 
2.43.0


From 8ec379bb1c4a6b6f38a50987818de05fba1dcfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:45 +0000
Subject: [PATCH 14/38] fix: a single step that ended in another stop left the
 trap flag set

---
 src/t86/debug.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/t86/debug.cpp b/src/t86/debug.cpp
index 9044c52..3a129df 100644
--- a/src/t86/debug.cpp
+++ b/src/t86/debug.cpp
@@ -103,10 +103,9 @@ namespace tiny::t86 {
     /// which will communicate with the client.
     /// Should be called on any break situation.
     bool Debug::Work(BreakReason reason) {
-        if (reason == BreakReason::SingleStep) {
-            log_info("Debug handler: After singlestep");
-            cpu.unsetTrapFlag();
-        } 
+        // A singlestep can also end with a different reason (for example
+        // a write to watched memory), the trap must not outlive it.
+        cpu.unsetTrapFlag();
         log_info("Sending stop message to the debugger");
         messenger->Send("STOPPED");
         
-- 
2.43.0


From 9045a57e131e13a30339a32c0ab8d62b78de4b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:45 +0000
Subject: [PATCH 15/38] fix: range checks of memory and text accesses wrapped
 around

---
 src/debugger/Native.cpp     | 4 ++--
 src/debugger/T86Process.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index 252d6a7..0495233 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -53,7 +53,7 @@ void Native::DisableSoftwareBreakpoint(uint64_t address) {
 std::vector<std::string> Native::ReadText(uint64_t address, size_t amount) {
     // TODO: Needs to replace if some breakpoints are set.
     auto text_size = TextSize();
-    if (address + amount > text_size) {
+    if (amount > text_size || address > text_size - amount) {
         throw DebuggerError(
             fmt::format("Reading text at range {}-{}, but text size is {}",
                         address, address + amount, text_size));
@@ -73,7 +73,7 @@ std::vector<std::string> Native::ReadText(uint64_t address, size_t amount) {
 
 void Native::WriteText(uint64_t address, std::vector<std::string> text) {
     auto text_size = TextSize();
-    if (address + text.size() > text_size) {
+    if (text.size() > text_size || address > text_size - text.size()) {
         throw DebuggerError(
             fmt::format("Writing text at range {}-{}, but text size is {}",
                         address, address + text.size(), text_size));
diff --git a/src/debugger/T86Process.cpp b/src/debugger/T86Process.cpp
index 69cde65..2cdb92a 100644
--- a/src/debugger/T86Process.cpp
+++ b/src/debugger/T86Process.cpp
@@ -35,7 +35,7 @@ std::vector<std::string> T86Process::ReadText(uint64_t address, size_t amount) {
 }
 
 void T86Process::WriteMemory(uint64_t address, const std::vector<int64_t>& data) {
-    if (address + data.size() > data_size) {
+    if (data.size() > data_size || address > data_size - data.size()) {
         throw DebuggerError(fmt::format("Writing memory at {}-{}, but size is {}",
                     address, address + data.size() - 1, data_size));
     }
@@ -46,7 +46,7 @@ void T86Process::WriteMemory(uint64_t address, const std::vector<int64_t>& data)
 }
 
 std::vector<int64_t> T86Process::ReadMemory(uint64_t address, size_t amount) {
-    if (address + amount > data_size) {
+    if (amount > data_size || address > data_size - amount) {
         throw DebuggerError(fmt::format("Reading memory at {}-{}, but size is {}",
                     address, address + amount - 1, data_size));
     }
-- 
2.43.0


From 2d363c4dedbf87d4471fa39974fb0c203e4327ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:10 +0000
Subject: [PATCH 16/38] fix: WriteText accepted malformed instructions at
 breakpoint addresses

---
 src/debugger/Native.cpp     | 10 ++++------
 src/debugger/T86Process.cpp |  7 +++++--
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index 0495233..af4b882 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -79,18 +79,16 @@ void Native::WriteText(uint64_t address, std::vector<std::string> text) {
                         address, address + text.size(), text_size));
     }
     // Some of the code we want to rewrite might
-    // be occupied by a breakpoint, so instead
-    // we write it into its saved data and
-    // persist the breakpoint in the debuggee.
+    // be occupied by a breakpoint, so set those
+    // again, which saves the new instructions.
+    process->WriteText(address, text);
     for (size_t i = 0; i < text.size(); ++i) {
         uint64_t curr_addr = i + address;
         auto bp = software_breakpoints.find(curr_addr);
         if (bp != software_breakpoints.end() && bp->second.enabled) {
-            bp->second.data = text[i];
-            text[i] = GetSoftwareBreakpointOpcode();
+            bp->second = CreateSoftwareBreakpoint(curr_addr);
         }
     }
-    process->WriteText(address, text);
 }
 
 DebugEvent Native::PerformSingleStep() {
diff --git a/src/debugger/T86Process.cpp b/src/debugger/T86Process.cpp
index 2cdb92a..9659993 100644
--- a/src/debugger/T86Process.cpp
+++ b/src/debugger/T86Process.cpp
@@ -7,8 +7,9 @@
 /// respected.
 void T86Process::WriteText(uint64_t address,
                            const std::vector<std::string> &data) {
-    for (size_t i = 0; i < data.size(); ++i) {
-        std::istringstream iss(data[i]);
+    // Check everything first, so that nothing is written on an error.
+    for (const auto& ins: data) {
+        std::istringstream iss(ins);
         Parser p(iss);
         try {
             p.Instruction();
@@ -16,6 +17,8 @@ void T86Process::WriteText(uint64_t address,
         } catch (const ParserError& err) {
             throw DebuggerError(fmt::format("Error in parsing instruction: {}", err.what()));
         }
+    }
+    for (size_t i = 0; i < data.size(); ++i) {
         process->Send(fmt::format("POKETEXT {} {}", address + i, data[i]));
         CheckResponse("POKETEXT error");
     }
-- 
2.43.0


From fd711a37b769aa73d911dc46175711f51dc84803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:10 +0000
Subject: [PATCH 17/38] fix: a breakpoint outside of the text killed the
 machine

---
 src/debugger/Native.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index af4b882..47e3732 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -437,6 +437,12 @@ std::string_view Native::GetSoftwareBreakpointOpcode() const {
 }
 
 SoftwareBreakpoint Native::CreateSoftwareBreakpoint(uint64_t address) {
+    auto text_size = TextSize();
+    if (address >= text_size) {
+        throw DebuggerError(
+            fmt::format("Breakpoint at {} is out of range, text size is {}",
+                        address, text_size));
+    }
     auto opcode = GetSoftwareBreakpointOpcode();
     auto backup = process->ReadText(address, 1).at(0);
 
-- 
2.43.0


From 8c692dee1b281ea18efd20d2fb2ead035396bb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:10 +0000
Subject: [PATCH 18/38] fix: IP was moved twice for an event cached by
 ContinueExecution

---
 src/debugger/Native.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index 47e3732..b8aa068 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -319,8 +319,10 @@ DebugEvent Native::WaitForDebugEvent() {
     // If, for some reason, we got the event in some other
     // inner function (ie. ContinueExecution), return it now and empty it.
     if (cached_event) {
+        // The IP has already been fixed when the event was first got.
         reason = *cached_event;
         cached_event.reset();
+        return reason;
     } else {
         process->Wait();
         reason = MapReasonToEvent(process->GetReason());
-- 
2.43.0


From 74dc1108aebaddcbf30fb8f5d4ee77f42302d538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:15 +0000
Subject: [PATCH 19/38] fix: keep the saved instruction of a disabled
 breakpoint up to date

---
 src/debugger/Native.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index b8aa068..c6bcc05 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -64,7 +64,7 @@ std::vector<std::string> Native::ReadText(uint64_t address, size_t amount) {
     auto text = process->ReadText(address, amount);
     for (size_t i = 0; i < text.size(); ++i) {
         auto it = software_breakpoints.find(i + address);
-        if (it != software_breakpoints.end() && it->second.enabled) {
+        if (it != software_breakpoints.end()) {
             text.at(i) = it->second.data;
         }
     }
@@ -85,8 +85,13 @@ void Native::WriteText(uint64_t address, std::vector<std::string> text) {
     for (size_t i = 0; i < text.size(); ++i) {
         uint64_t curr_addr = i + address;
         auto bp = software_breakpoints.find(curr_addr);
-        if (bp != software_breakpoints.end() && bp->second.enabled) {
+        if (bp == software_breakpoints.end()) {
+            continue;
+        }
+        if (bp->second.enabled) {
             bp->second = CreateSoftwareBreakpoint(curr_addr);
+        } else {
+            bp->second.data = text[i];
         }
     }
 }
-- 
2.43.0


From 5856dc0c4cf075dedfcbcc5d97ceacc01fd8dcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:59 +0000
Subject: [PATCH 20/38] fix: stepping over a call missed stops inside it and
 ran away on a disabled breakpoint

---
 src/debugger/Native.cpp | 50 ++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index c6bcc05..868cb9e 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -124,13 +124,22 @@ DebugEvent Native::PerformStepOver(bool skip_bp) {
     auto is_call = std::find_if(calls.begin(), calls.end(),
                                 [&text](auto&& ins) { return text.starts_with(ins); });
     if (is_call != calls.end()) {
-        bool bp_exists = software_breakpoints.contains(ip + 1);
-        if (!bp_exists) {
-            SetBreakpoint(ip + 1); 
+        auto is_enabled = [this](uint64_t address) {
+            auto it = software_breakpoints.find(address);
+            return it != software_breakpoints.end() && it->second.enabled;
+        };
+        if (!skip_bp && is_enabled(ip)) {
+            return DoRawSingleStep();
         }
-        // To step over a breakpoint on current line.
-        if (skip_bp) {
-            PerformSingleStep();
+        // The call may be the very last instruction, in which case there
+        // is nothing to return to.
+        bool has_next = ip + 1 < TextSize();
+        bool bp_exists = software_breakpoints.contains(ip + 1);
+        bool bp_enabled = is_enabled(ip + 1);
+        if (has_next && !bp_exists) {
+            SetBreakpoint(ip + 1);
+        } else if (has_next) {
+            EnableSoftwareBreakpoint(ip + 1);
         }
         // There is a problem with recursive functions. They can hit the breakpoint
         // also. We do this bold heuristic where we check if the BP is the same,
@@ -138,31 +147,26 @@ DebugEvent Native::PerformStepOver(bool skip_bp) {
         // this guy, especially if they're recursive.
         auto bp = GetRegister("BP");
         DebugEvent e;
-        while (true) {
+        bool returned = false;
+        do {
+            // Also steps over a breakpoint on current line.
             ContinueExecution();
             e = WaitForDebugEvent();
-            // If we landed on the same position we came from
-            if (bp == GetRegister("BP")
-                    && GetIP() == ip + 1
-                    && std::holds_alternative<BreakpointHit>(e)) {
+            // Totally other event or other breakpoint happened
+            if (!std::holds_alternative<BreakpointHit>(e) || GetIP() != ip + 1) {
                 break;
             }
-            // If other breakpoint happened
-            if (std::holds_alternative<BreakpointHit>(e)
-                    && GetIP() != ip + 1) {
-                break;
-            }
-            // Totally other event
-            if (!std::holds_alternative<BreakpointHit>(e)) {
-                break;
-            }
-        }
+            // If we landed on the same position we came from
+            returned = bp == GetRegister("BP");
+        } while (!returned);
 
-        if (!bp_exists) {
+        if (has_next && !bp_exists) {
             UnsetBreakpoint(ip + 1);
+        } else if (has_next && !bp_enabled) {
+            DisableSoftwareBreakpoint(ip + 1);
         }
         // We probably hit some other breakpoint in the call.
-        if (GetIP() != ip + 1) {
+        if (!returned) {
             return e;
         } else {
             return Singlestep{};
-- 
2.43.0


From f71861e6c7654e461b6691811f6a7a0902a7a7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:49 +0000
Subject: [PATCH 21/38] fix: setting a float register lost the NaN payloads of
 the others

---
 src/debugger/Native.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index 868cb9e..b0afa7e 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -222,8 +222,8 @@ void Native::SetFloatRegister(const std::string& name, double value) {
     if (!fregs.contains(name)) {
         throw DebuggerError(fmt::format("'{}' is not float register", name));
     }
-    fregs.at(name) = value;
-    SetFloatRegisters(fregs);
+    // The others are not sent back, the payload of a NaN would be lost
+    SetFloatRegisters({{name, value}});
 }
 
 double Native::GetFloatRegister(const std::string& name) {
-- 
2.43.0


From b33fb4bb747b8155aa2dc6507428bacf9372730a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:49 +0000
Subject: [PATCH 22/38] fix: memory written by the debugger was hidden by a
 store or read still on its way

---
 src/t86/cpu.cpp                                     | 1 +
 src/t86/cpu/memory_writes_manager.cpp               | 6 ++++++
 src/t86/cpu/memory_writes_manager.h                 | 4 ++++
 src/t86/cpu/memory_writes_manager/memory_write.cpp  | 5 +++++
 src/t86/cpu/memory_writes_manager/memory_write.h    | 3 +++
 src/t86/cpu/memory_writes_manager/memory_writes.cpp | 8 ++++++++
 src/t86/cpu/memory_writes_manager/memory_writes.h   | 5 +++++
 src/t86/ram.cpp                                     | 7 +++++++
 8 files changed, 39 insertions(+)

diff --git a/src/t86/cpu.cpp b/src/t86/cpu.cpp
index 34d7ccc..db27d54 100644
--- a/src/t86/cpu.cpp
+++ b/src/t86/cpu.cpp
@@ -221,6 +221,7 @@ namespace tiny::t86 {
 
     void Cpu::setMemory(uint64_t address, int64_t value) {
         ram_.set(address, value);
+        writesManager_.overwriteOutgoing(address, value);
     }
 
     const Instruction& Cpu::getText(uint64_t address) {
diff --git a/src/t86/cpu/memory_writes_manager.cpp b/src/t86/cpu/memory_writes_manager.cpp
index d00525c..1f2cb4e 100644
--- a/src/t86/cpu/memory_writes_manager.cpp
+++ b/src/t86/cpu/memory_writes_manager.cpp
@@ -57,6 +57,12 @@ namespace tiny::t86 {
         unspecifiedWrites_.clear();
     }
 
+    void MemoryWritesManager::overwriteOutgoing(std::size_t address, uint64_t value) {
+        if (auto it = writesMap_.find(address); it != writesMap_.end()) {
+            it->second.overwriteOutgoing(value);
+        }
+    }
+
     MemoryWrite& MemoryWritesManager::getWrite(MemoryWrite::Id id) const {
         auto it = writesById.find(id);
         assert(it != writesById.end() && "Unknown id");
diff --git a/src/t86/cpu/memory_writes_manager.h b/src/t86/cpu/memory_writes_manager.h
index a8e0881..73e8184 100644
--- a/src/t86/cpu/memory_writes_manager.h
+++ b/src/t86/cpu/memory_writes_manager.h
@@ -45,6 +45,10 @@ namespace tiny::t86 {
             return it != unspecifiedWrites_.end();
         }
 
+        /// Changes the value of all started writes to the address,
+        /// so that following reads of it yield the value.
+        void overwriteOutgoing(std::size_t address, uint64_t value);
+
         /**
          * Checks if there are some pending writes
          * It DOES NOT take into account all writes with unspecified address
diff --git a/src/t86/cpu/memory_writes_manager/memory_write.cpp b/src/t86/cpu/memory_writes_manager/memory_write.cpp
index af63d0f..d432faa 100644
--- a/src/t86/cpu/memory_writes_manager/memory_write.cpp
+++ b/src/t86/cpu/memory_writes_manager/memory_write.cpp
@@ -12,4 +12,9 @@ namespace tiny::t86 {
         assert(!hasValue() && !isOutgoing());
         value_ = value;
     }
+
+    void MemoryWrite::overwriteValue(uint64_t value) {
+        assert(isOutgoing());
+        value_ = value;
+    }
 }
diff --git a/src/t86/cpu/memory_writes_manager/memory_write.h b/src/t86/cpu/memory_writes_manager/memory_write.h
index dc45b4b..68e0078 100644
--- a/src/t86/cpu/memory_writes_manager/memory_write.h
+++ b/src/t86/cpu/memory_writes_manager/memory_write.h
@@ -47,6 +47,9 @@ namespace tiny::t86 {
 
         void setValue(uint64_t value);
 
+        /// Replaces the value of an outgoing write
+        void overwriteValue(uint64_t value);
+
         uint64_t value() const {
             return value_.value();
         }
diff --git a/src/t86/cpu/memory_writes_manager/memory_writes.cpp b/src/t86/cpu/memory_writes_manager/memory_writes.cpp
index 2676d90..0f57b0a 100644
--- a/src/t86/cpu/memory_writes_manager/memory_writes.cpp
+++ b/src/t86/cpu/memory_writes_manager/memory_writes.cpp
@@ -40,6 +40,14 @@ namespace tiny::t86 {
         return removed;
     }
 
+    void MemoryWrites::overwriteOutgoing(uint64_t value) {
+        for (auto& write : writes_) {
+            if (write.isOutgoing()) {
+                write.overwriteValue(value);
+            }
+        }
+    }
+
     std::vector<MemoryWrite::Id> MemoryWrites::removePending() {
         std::vector<MemoryWrite::Id> removed;
         for (auto writeIt = writes_.begin(); writeIt != writes_.end();) {
diff --git a/src/t86/cpu/memory_writes_manager/memory_writes.h b/src/t86/cpu/memory_writes_manager/memory_writes.h
index f42127f..acf3411 100644
--- a/src/t86/cpu/memory_writes_manager/memory_writes.h
+++ b/src/t86/cpu/memory_writes_manager/memory_writes.h
@@ -37,6 +37,11 @@ namespace tiny::t86 {
          */
         std::vector<MemoryWrite::Id> removePending();
 
+        /**
+         * Changes the value of all outgoing writes
+         */
+        void overwriteOutgoing(uint64_t value);
+
     private:
         // This is used to sort and lookup in the writes
         // It is sorting from largest to smallest to find writes with equal or lesser id
diff --git a/src/t86/ram.cpp b/src/t86/ram.cpp
index 1797e99..8f6bb04 100644
--- a/src/t86/ram.cpp
+++ b/src/t86/ram.cpp
@@ -75,6 +75,13 @@ namespace tiny::t86 {
 
     void RAM::set(std::size_t address, int64_t value) {
         mem_.at(address) = value;
+        // The value may already be on its way from or to the memory
+        if (auto it = reads_.find(address); it != reads_.end()) {
+            it->second.value = value;
+        }
+        if (auto it = writes_.find(address); it != writes_.end()) {
+            it->second.value = value;
+        }
     }
 
     std::size_t RAM::size() const {
-- 
2.43.0


From b2136efe379c9543d9c79a57d03d5157bf4ccd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:24 +0000
Subject: [PATCH 23/38] fix: the operators <= and >= were not parsed in
 expressions

---
 src/debugger/Source/ExpressionParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/debugger/Source/ExpressionParser.cpp b/src/debugger/Source/ExpressionParser.cpp
index 7407878..9878291 100644
--- a/src/debugger/Source/ExpressionParser.cpp
+++ b/src/debugger/Source/ExpressionParser.cpp
@@ -76,6 +76,8 @@ std::unique_ptr<Expression> ExpressionParser::logical() {
 std::unique_ptr<Expression> ExpressionParser::comparison() {
     std::unique_ptr<Expression> result = shifts();
     while (curtok.kind == TokenKind::LESS
+            || curtok.kind == TokenKind::LEQ
+            || curtok.kind == TokenKind::GEQ
             || curtok.kind == TokenKind::GREATER) {
         auto kind = curtok.kind;
         GetNext();
-- 
2.43.0


From 8162839797a6f283760e1e1629bb75f33158e098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:24 +0000
Subject: [PATCH 24/38] fix: expression beginning with an invalid token
 terminated the debugger

---
 src/debugger/Source/Source.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/debugger/Source/Source.cpp b/src/debugger/Source/Source.cpp
index f57a198..e5e49f3 100644
--- a/src/debugger/Source/Source.cpp
+++ b/src/debugger/Source/Source.cpp
@@ -342,9 +342,10 @@ std::map<std::string, const DIE*> Source::GetActiveVariables(uint64_t address) c
 std::pair<TypedValue, size_t>
 Source::EvaluateExpression(Native& native, std::string expression, bool cache) {
     std::istringstream iss(std::move(expression));
-    ExpressionParser parser(iss);
     std::unique_ptr<Expression> e; 
     try {
+        // The first token is already read on construction
+        ExpressionParser parser(iss);
         e = parser.ParseExpression();
     } catch (const ParserError& err) {
         throw DebuggerError(fmt::format("Unable to parse expression: {}", err.what()));
-- 
2.43.0


From a8d5347f61be622fea2babb4dd26fbfcdcec6712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:24 +0000
Subject: [PATCH 25/38] fix: text after an expression was silently ignored

---
 src/debugger/Source/ExpressionParser.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/debugger/Source/ExpressionParser.h b/src/debugger/Source/ExpressionParser.h
index 8a7e9b1..25b741a 100644
--- a/src/debugger/Source/ExpressionParser.h
+++ b/src/debugger/Source/ExpressionParser.h
@@ -27,7 +27,11 @@ class ExpressionParser {
 public:
     ExpressionParser(std::istream& is): lex(is) { GetNext(); }
     std::unique_ptr<Expression> ParseExpression() {
-        return expr();
+        auto e = expr();
+        if (curtok.kind != TokenKind::END) {
+            throw CreateError("Unexpected text after the expression");
+        }
+        return e;
     }
 private:
     template<typename ...Args>
-- 
2.43.0


From 09f125519cd33405be1bd912f4ab0d46c4a233d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:24 +0000
Subject: [PATCH 26/38] fix: assignment to a float variable stored the value
 converted to an integer

---
 src/debugger/Source/Expression.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index 8b329f2..048942f 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -322,7 +322,8 @@ TypedValue ExpressionEvaluator::Assignment(TypedValue&& left, TypedValue&& right
             return std::move(left);
         },
         [&](FloatValue&& left, FloatValue&& right) -> TypedValue {
-            SetRaw(native, left.loc.value(), right.value);
+            SetRaw(native, left.loc.value(),
+                   utils::reinterpret_safe<uint64_t>(right.value));
             left.value = right.value;
             return std::move(left);
         },
-- 
2.43.0


From d11ae1df7d0041aeb7c2ee5a55193212ebc2f506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:02 +0000
Subject: [PATCH 27/38] fix: negative array index read outside of the array

---
 src/debugger/Source/Expression.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index 048942f..56cbfc7 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -241,6 +241,9 @@ void ExpressionEvaluator::Visit(const ArrayAccess& id) {
         if (idx == nullptr) {
             throw DebuggerError("Can only indexate with integers");
         }
+        if (idx->value < 0) {
+            throw DebuggerError(fmt::format("Out of bounds access: {} < 0", idx->value));
+        }
         if (idx->value >= static_cast<int64_t>(av->members.size())) {
             throw DebuggerError(fmt::format("Out of bounds access: {} >= {}", idx->value, av->members.size()));
         }
-- 
2.43.0


From 467aa8abca9416c8e412aa1d4e9de4237dc53357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:02 +0000
Subject: [PATCH 28/38] fix: dividing the smallest integer by -1 in an
 expression killed the debugger

---
 src/debugger/Source/Expression.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index 56cbfc7..5b289b2 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -1,5 +1,6 @@
 #include <variant>
 #include <functional>
+#include <limits>
 #include "Expression.h"
 #include "Source.h"
 #include "debugger/Source/ExpressionInterpreter.h"
@@ -253,6 +254,15 @@ void ExpressionEvaluator::Visit(const ArrayAccess& id) {
     }
 }
 
+/// Returns false if the quotient does not fit into the type of operands,
+/// computing it would terminate the debugger.
+bool CheckDivOverflow(const TypedValue& left, const TypedValue& right) {
+    auto l = std::get_if<IntegerValue>(&left);
+    auto r = std::get_if<IntegerValue>(&right);
+    return l == nullptr || r == nullptr || r->value != -1
+        || l->value != std::numeric_limits<int64_t>::min();
+}
+
 bool CheckZero(const TypedValue& val) {
     return std::visit(utils::overloaded{
         [](const IntegerValue& v) {
@@ -395,6 +405,9 @@ void ExpressionEvaluator::Visit(const BinaryOperator& plus) {
         if (!CheckZero(right)) {
             throw DebuggerError("Can't divide by zero");
         }
+        if (!CheckDivOverflow(left, right)) {
+            throw DebuggerError("Overflow in division");
+        }
         visitor_value = ArithmeticOp(std::move(left),
                                      std::divides{},
                                      std::move(right));
@@ -402,6 +415,9 @@ void ExpressionEvaluator::Visit(const BinaryOperator& plus) {
         if (!CheckZero(right)) {
             throw DebuggerError("Can't divide by zero");
         }
+        if (!CheckDivOverflow(left, right)) {
+            throw DebuggerError("Overflow in division");
+        }
         visitor_value = BitValues(std::move(left),
                                   std::modulus{},
                                   std::move(right));
-- 
2.43.0


From f5eaaedcfca670aaeb3bd8e3a0b26f54c9f46e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:02 +0000
Subject: [PATCH 29/38] fix: assigning arrays of different sizes aborted the
 debugger

---
 src/debugger/Source/Expression.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index 5b289b2..6d4d13d 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -357,7 +357,9 @@ TypedValue ExpressionEvaluator::Assignment(TypedValue&& left, TypedValue&& right
             if (left.type.type_id != right.type.type_id) {
                 throw DebuggerError("Incopatible pointer types");
             }
-            assert(left.members.size() == right.members.size());
+            if (left.members.size() != right.members.size()) {
+                throw DebuggerError("Arrays have different number of elements");
+            }
             for (size_t i = 0; i < left.members.size(); ++ i) {
                 left.members.at(i) = Assignment(std::move(left.members.at(i)),
                                                 std::move(right.members.at(i)));
-- 
2.43.0


From 5115695aa67b84649c180f3f2089a19ae8a0d993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:02 +0000
Subject: [PATCH 30/38] fix: difference of pointers was not scaled by the size
 of the type

---
 src/debugger/Source/Expression.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index 6d4d13d..63ba499 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -162,11 +162,17 @@ TypedValue ExpressionEvaluator::SubValues(TypedValue&& left, TypedValue&& right)
             auto item_size = source.GetTypeSize(left.type.type_id);
             return PointerValue{left.type, left.value - right.value * item_size};
         },
-        [](PointerValue&& left, PointerValue&& right) -> TypedValue {
+        [this](PointerValue&& left, PointerValue&& right) -> TypedValue {
             if (left.type.type_id != right.type.type_id) {
                 throw DebuggerError("Only pointers to the same type can be substracted");
             }
-            return IntegerValue{static_cast<int64_t>(left.value - right.value)};
+            // The difference is in items, the same as when adding to a pointer
+            auto item_size = source.GetTypeSize(left.type.type_id);
+            if (item_size == 0) {
+                throw DebuggerError("Pointers to types without size can't be substracted");
+            }
+            return IntegerValue{static_cast<int64_t>(left.value - right.value)
+                / static_cast<int64_t>(item_size)};
         },
         [](auto&&, auto&&) -> TypedValue {
             throw DebuggerError("Unsupported types for operator '-'");
-- 
2.43.0


From c8880aa0f352966e146a0f7d1d1f1e031c8e8fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:30 +0000
Subject: [PATCH 31/38] fix: dereference in location expressions read through
 one level too many and kept its operand

---
 src/debugger/Source/ExpressionInterpreter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/debugger/Source/ExpressionInterpreter.cpp b/src/debugger/Source/ExpressionInterpreter.cpp
index b42ed87..384ddfc 100644
--- a/src/debugger/Source/ExpressionInterpreter.cpp
+++ b/src/debugger/Source/ExpressionInterpreter.cpp
@@ -68,14 +68,14 @@ void ExpressionInterpreter::Interpret() {
             },
             [&](const expr::Dereference& ins) {
                 auto v1 = s.top();
+                s.pop();
                 auto v = std::visit(utils::overloaded {
                         [&](const expr::Register& reg) {
                             auto idx = native.GetRegister(reg.name);
                             return native.ReadMemory(idx, 1)[0];
                         },
                         [&](const expr::Offset& offset) {
-                            auto idx = native.ReadMemory(offset.value, 1)[0];
-                            return native.ReadMemory(idx, 1)[0];
+                            return native.ReadMemory(offset.value, 1)[0];
                         }
                 }, v1);
                 s.push(expr::Offset{v});
-- 
2.43.0


From 4d127569cf073f370aee1d6c284cd255e65e241f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:30 +0000
Subject: [PATCH 32/38] fix: location expression with missing operands crashed
 the debugger

---
 src/debugger/Source/ExpressionInterpreter.cpp | 18 ++++++++++++------
 src/debugger/Source/ExpressionInterpreter.h   |  3 +++
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/debugger/Source/ExpressionInterpreter.cpp b/src/debugger/Source/ExpressionInterpreter.cpp
index 384ddfc..a486a69 100644
--- a/src/debugger/Source/ExpressionInterpreter.cpp
+++ b/src/debugger/Source/ExpressionInterpreter.cpp
@@ -47,6 +47,15 @@ expr::Location ExpressionInterpreter::AddOperands(const expr::Location& o1,
     }, o1);
 }
 
+expr::Location ExpressionInterpreter::Pop() {
+    if (s.empty()) {
+        throw DebuggerError("Missing operand on the stack in location expression.");
+    }
+    auto v = s.top();
+    s.pop();
+    return v;
+}
+
 void ExpressionInterpreter::Interpret() {
     for (const auto& ins: exprs) {
         std::visit(utils::overloaded {
@@ -54,10 +63,8 @@ void ExpressionInterpreter::Interpret() {
                 s.push(ins.value);
             },
             [&](const expr::Add& ins) {
-                auto v1 = s.top();
-                s.pop();
-                auto v2 = s.top();
-                s.pop();
+                auto v1 = Pop();
+                auto v2 = Pop();
                 auto res = AddOperands(v1, v2);
                 s.push(std::move(res));
             },
@@ -67,8 +74,7 @@ void ExpressionInterpreter::Interpret() {
                 s.push(expr::Offset{loc});
             },
             [&](const expr::Dereference& ins) {
-                auto v1 = s.top();
-                s.pop();
+                auto v1 = Pop();
                 auto v = std::visit(utils::overloaded {
                         [&](const expr::Register& reg) {
                             auto idx = native.GetRegister(reg.name);
diff --git a/src/debugger/Source/ExpressionInterpreter.h b/src/debugger/Source/ExpressionInterpreter.h
index ac2c139..f1e0da0 100644
--- a/src/debugger/Source/ExpressionInterpreter.h
+++ b/src/debugger/Source/ExpressionInterpreter.h
@@ -35,6 +35,9 @@ private:
                 exprs(exprs), native(native),
                 frame_base_reg_name(std::move(frame_base_reg_name)) { }
 
+    /// Removes the top of the stack and returns it, throws if it is empty.
+    expr::Location Pop();
+
     expr::Location AddOperands(const expr::Location& o1,
                               const expr::Location& o2) const;
 
-- 
2.43.0


From fc45c05fa0edcc72b76eb5dcb702eede1c6dd6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:30 +0000
Subject: [PATCH 33/38] fix: variable declared after a nested scope hid the
 variable of the nested scope

---
 src/debugger/Source/Source.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/debugger/Source/Source.cpp b/src/debugger/Source/Source.cpp
index e5e49f3..1ead86f 100644
--- a/src/debugger/Source/Source.cpp
+++ b/src/debugger/Source/Source.cpp
@@ -326,8 +326,17 @@ void FindVariables(uint64_t address, const DIE& die, std::map<std::string, const
             return;
         }
     }
+    // Variables of nested scopes hide those declared here, even
+    // if the declaration follows the nested scope.
     for (const auto& d: die) {
-        FindVariables(address, d, result);
+        if (d.get_tag() == DIE::TAG::variable) {
+            FindVariables(address, d, result);
+        }
+    }
+    for (const auto& d: die) {
+        if (d.get_tag() != DIE::TAG::variable) {
+            FindVariables(address, d, result);
+        }
     }
 }
 
-- 
2.43.0


From 2d715ceb9af9669fcca0dd0da8bac446083ee252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:30 +0000
Subject: [PATCH 34/38] fix: structured type without all attributes crashed the
 debugger

---
 src/debugger/Source/Source.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/debugger/Source/Source.cpp b/src/debugger/Source/Source.cpp
index 1ead86f..505594f 100644
--- a/src/debugger/Source/Source.cpp
+++ b/src/debugger/Source/Source.cpp
@@ -222,6 +222,10 @@ void Source::ReconstructTypeInformation() {
             auto name = FindDieAttribute<ATTR_name>(die);
             auto size = FindDieAttribute<ATTR_size>(die);
             auto members = FindDieAttribute<ATTR_members>(die);
+            if (!name || !size || !members) {
+                log_error("DIE structured_type: Missing name, size or members");
+                continue;
+            }
             std::vector<StructuredMember> members_vec;
             std::transform(members->m.begin(), members->m.end(),
                     std::back_inserter(members_vec),
-- 
2.43.0


From cbe78b4e057d8e0dbc52be61217e932c07c736fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:04 +0000
Subject: [PATCH 35/38] fix: POP SP aborted the virtual machine

---
 src/t86/instruction.cpp | 5 ++++-
 src/t86/instruction.h   | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/t86/instruction.cpp b/src/t86/instruction.cpp
index 5b179cd..2d598b8 100644
--- a/src/t86/instruction.cpp
+++ b/src/t86/instruction.cpp
@@ -554,7 +554,10 @@ INS_NAME::INS_NAME(Operand address) : ConditionalJumpInstruction([](Alu::Flags f
         const auto& operands = entry.operands();
         assert(operands.size() == 2);
         entry.setRegister(reg_, operands[0].getValue());
-        entry.setStackPointer(operands[1].getValue() + 1);
+        // The popped value wins when the stack pointer itself is popped
+        if (reg_ != Register::StackPointer()) {
+            entry.setStackPointer(operands[1].getValue() + 1);
+        }
     }
 
     void FPOP::execute(ReservationStation::Entry& entry) const {
diff --git a/src/t86/instruction.h b/src/t86/instruction.h
index 03f5c41..4a73362 100644
--- a/src/t86/instruction.h
+++ b/src/t86/instruction.h
@@ -686,6 +686,9 @@ class INS_NAME : public UnaryArithmeticInstruction {      \
         }
 
         std::vector<Product> produces() const override {
+            if (reg_ == Register::StackPointer()) {
+                return { reg_ };
+            }
             return { reg_, Register::StackPointer() };
         }
 
-- 
2.43.0


From bd231c0e361b1f9bf8297e5653a4d5afa1dc1066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:57 +0000
Subject: [PATCH 36/38] fix: step over swallowed a breakpoint behind a
 recursive call

---
 src/debugger/Native.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index b0afa7e..14e3043 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -158,7 +158,8 @@ DebugEvent Native::PerformStepOver(bool skip_bp) {
             }
             // If we landed on the same position we came from
             returned = bp == GetRegister("BP");
-        } while (!returned);
+            // Breakpoint of the user is reported in every frame
+        } while (!returned && !bp_enabled);
 
         if (has_next && !bp_exists) {
             UnsetBreakpoint(ip + 1);
-- 
2.43.0


From 01e7a7509eb9f38312d2022fc786d8f418890540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:41 +0000
Subject: [PATCH 37/38] fix: failed send repeated bytes or lost the message
 silently

---
 src/common/TCP.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/TCP.h b/src/common/TCP.h
index b3960f4..d791bad 100644
--- a/src/common/TCP.h
+++ b/src/common/TCP.h
@@ -52,7 +52,11 @@ private:
 inline void SendRaw(int socket, const uint8_t* data, size_t size) {
     size_t sent = 0;
     while (sent < size) {
-        sent += send(socket, &data[sent], size - sent, 0);
+        ssize_t n = send(socket, &data[sent], size - sent, 0);
+        if (n < 0) {
+            throw TCPError("Sending failed");
+        }
+        sent += n;
     }
 }
 
-- 
2.43.0


From 8452b9cb8fd3fc6a75df90fed6bde3cb120c2e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:50 +0000
Subject: [PATCH 38/38] fix: length of a message that arrives in parts was read
 wrong

---
 src/common/TCP.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/common/TCP.h b/src/common/TCP.h
index d791bad..8c6e42d 100644
--- a/src/common/TCP.h
+++ b/src/common/TCP.h
@@ -73,11 +73,16 @@ inline void Send(int socket, const std::string& s) {
 inline std::optional<std::string> Receive(int socket) {
     // The messages are in form 8b | data
     size_t size = 0;
-    int err = read(socket, &size, sizeof(size_t));
-    if (err < 0) {
-        throw TCPError("Reading failed");
-    } if (err == 0) {
-        return std::nullopt;
+    size_t header = 0;
+    while (header < sizeof(size_t)) {
+        int err = read(socket, reinterpret_cast<uint8_t*>(&size) + header,
+                       sizeof(size_t) - header);
+        if (err < 0) {
+            throw TCPError("Reading failed");
+        } if (err == 0) {
+            return std::nullopt;
+        }
+        header += err;
     }
 
     size_t received = 0;
-- 
2.43.0

