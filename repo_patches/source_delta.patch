From 8fc93117e339ec7b530fa6451c2a0d835b7a52a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:34 +0000
Subject: [PATCH 01/31] fix: Queue iterators keep the full 64-bit element id

---
 sparta/sparta/resources/Queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/resources/Queue.hpp b/sparta/sparta/resources/Queue.hpp
index 28ea639..f8c6a3d 100644
--- a/sparta/sparta/resources/Queue.hpp
+++ b/sparta/sparta/resources/Queue.hpp
@@ -237,7 +237,7 @@ namespace sparta
              * \param q  a pointer to the underlaying queue.
              * \param begin_itr if true iterator points to tail (begin()), if false points to head (end())
              */
-            QueueIterator(QueuePointerType q, uint32_t physical_index, uint32_t obj_id) :
+            QueueIterator(QueuePointerType q, uint32_t physical_index, uint64_t obj_id) :
                 attached_queue_(q),
                 physical_index_(physical_index),
                 obj_id_(obj_id)
-- 
2.43.0


From d9d919bc65e90ebd71cbab86929919907730f188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:12 +0000
Subject: [PATCH 02/31] fix: Buffer keeps element positions when it grows

---
 sparta/sparta/resources/Buffer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sparta/sparta/resources/Buffer.hpp b/sparta/sparta/resources/Buffer.hpp
index 9c7adc8..a56a013 100644
--- a/sparta/sparta/resources/Buffer.hpp
+++ b/sparta/sparta/resources/Buffer.hpp
@@ -104,6 +104,7 @@ namespace sparta
             DataPointer(DataPointer &&orig) noexcept {
                 ::memcpy(&object_memory_, &orig.object_memory_, sizeof(object_memory_));
                 data = reinterpret_cast<value_type*>(&object_memory_);
+                physical_idx = orig.physical_idx;
             }
 
             // No copies, only moves
-- 
2.43.0


From 22ae9c31a6e0d5008c5a6d4b0c7c47b749a268e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:12 +0000
Subject: [PATCH 03/31] fix: Buffer::insert records the new element's own
 position in the growth map

---
 sparta/sparta/resources/Buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/resources/Buffer.hpp b/sparta/sparta/resources/Buffer.hpp
index a56a013..af3fbe8 100644
--- a/sparta/sparta/resources/Buffer.hpp
+++ b/sparta/sparta/resources/Buffer.hpp
@@ -996,7 +996,7 @@ namespace sparta
             // Store the index in the data_pool_ to which current
             // free_position_ points to. We need to relink all these
             // pointers once the data_pool_ resizes.
-            address_map_[num_valid_] =
+            address_map_[idx] =
                 static_cast<uint32_t>(free_position_ - &data_pool_[0]);
             ++num_valid_;
             free_position_ = free_position_->next_free;
-- 
2.43.0


From 1f17977d2866a843321757f03d6744abdcf055eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:16 +0000
Subject: [PATCH 04/31] fix: CircularBuffer iterators keep the full 64-bit
 window index

---
 sparta/sparta/resources/CircularBuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/resources/CircularBuffer.hpp b/sparta/sparta/resources/CircularBuffer.hpp
index 3630fee..647b42c 100644
--- a/sparta/sparta/resources/CircularBuffer.hpp
+++ b/sparta/sparta/resources/CircularBuffer.hpp
@@ -689,7 +689,7 @@ namespace sparta
 
         // Used by the internal iterator type to see if it's still
         // valid
-        bool isValidIterator_(uint32_t window_idx) const {
+        bool isValidIterator_(uint64_t window_idx) const {
             return (window_idx >= start_idx_ && window_idx < end_idx_);
         }
 
-- 
2.43.0


From 4c4709b0af3f9a32e9fc36b38d0ecae5ae0082c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:16 +0000
Subject: [PATCH 05/31] fix: CircularBuffer::insert never exceeds the capacity

---
 sparta/sparta/resources/CircularBuffer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sparta/sparta/resources/CircularBuffer.hpp b/sparta/sparta/resources/CircularBuffer.hpp
index 647b42c..111844e 100644
--- a/sparta/sparta/resources/CircularBuffer.hpp
+++ b/sparta/sparta/resources/CircularBuffer.hpp
@@ -732,6 +732,7 @@ namespace sparta
             }
             sparta_assert(entry.isValid(),
                         "Cannot insert into Circularbuffer at given iterator");
+            sparta_assert(numFree(), "CircularBuffer '" << getName() << "' exhausted");
             auto it = circularbuffer_data_.insert(entry.getInternalBufferEntry_(),
                                                   CircularBufferData(std::forward<U>(dat), end_idx_));
             ++num_valid_;
-- 
2.43.0


From ff1929796d8842bebcc8432628dfcd181d8e564a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:20 +0000
Subject: [PATCH 06/31] fix: Pipe::flushIf does not count appended data as a
 valid stage

---
 sparta/sparta/resources/Pipe.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/resources/Pipe.hpp b/sparta/sparta/resources/Pipe.hpp
index f041552..8dd5e0e 100644
--- a/sparta/sparta/resources/Pipe.hpp
+++ b/sparta/sparta/resources/Pipe.hpp
@@ -385,7 +385,7 @@ public:
             PipeEntry & pe = pipe_[getPhysicalStage_(i)];
             if(pe.data.isValid()) {
                 if(pe.data.getValue() == criteria){
-                    if(pe.data.isValid()) {
+                    if(i >= 0) {    // appended data (stage -1) is not counted yet
                         --num_valid_;
                     }
                     pe.data.clearValid();
@@ -408,7 +408,7 @@ public:
             PipeEntry & pe = pipe_[getPhysicalStage_(i)];
             if(pe.data.isValid()) {
                 if(compare(pe.data.getValue())){
-                    if(pe.data.isValid()) {
+                    if(i >= 0) {    // appended data (stage -1) is not counted yet
                         --num_valid_;
                     }
                     pe.data.clearValid();
-- 
2.43.0


From 1fb94d8385feec2c5bb28381f3e74dd1d4d8f406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:26 +0000
Subject: [PATCH 07/31] fix: SharedData: several writes in one cycle must not
 discard the written state

Every write schedules an update.  With two writes in a cycle the second
update swapped the states again, and the present state became invalid.
---
 sparta/sparta/resources/SharedData.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sparta/sparta/resources/SharedData.hpp b/sparta/sparta/resources/SharedData.hpp
index 8b23e9c..73667bc 100644
--- a/sparta/sparta/resources/SharedData.hpp
+++ b/sparta/sparta/resources/SharedData.hpp
@@ -233,12 +233,21 @@ namespace sparta
         void writeImpl_(U && dat) {
             data_[NState_()] = std::forward<U>(dat);
             if constexpr (!manual_update) {
+                written_ = true;
                 ev_update_.schedule(1);
             }
         }
 
         void update_()
         {
+            // Several writes in one cycle schedule several updates: only
+            // the first one has something to propagate
+            if constexpr (!manual_update) {
+                if(!written_) {
+                    return;
+                }
+                written_ = false;
+            }
             current_state_ = NState_();
             clearNS();
         }
@@ -246,6 +255,9 @@ namespace sparta
         // Global Event
         GlobalEvent<SchedulingPhase::Update> ev_update_;
 
+        // Written since the last update (auto-update only)
+        bool written_ = false;
+
         // Current state
         uint32_t current_state_ = 0;
 
-- 
2.43.0


From 9054633b9e8d7d4da931ff428ae8673f4429312c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:43 +0000
Subject: [PATCH 08/31] fix: Rational: exact sums and differences for large
 numerators

Scaling a numerator multiplied before dividing and could overflow although
the scaled numerator is representable, and the distance of two unsigned
numerators of 2^31 (2^63) or more was taken for a negative number.
---
 sparta/sparta/utils/Rational.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/sparta/sparta/utils/Rational.hpp b/sparta/sparta/utils/Rational.hpp
index 63258f0..81f67a4 100644
--- a/sparta/sparta/utils/Rational.hpp
+++ b/sparta/sparta/utils/Rational.hpp
@@ -139,7 +139,7 @@ namespace utils
         {
             if (d_ != r.d_) {
                 T m = utils::lcm(d_, r.d_);
-                return Rational<T>((n_ * m / d_) + (r.n_ * m / r.d_), m);
+                return Rational<T>((n_ * (m / d_)) + (r.n_ * (m / r.d_)), m);
             } else {
                 return Rational<T>(n_ + r.n_, d_);
             }
@@ -149,7 +149,7 @@ namespace utils
         {
             if (d_ != r.d_) {
                 T m = utils::lcm(d_, r.d_);
-                n_ = (n_ * m / d_) + (r.n_ * m / r.d_);
+                n_ = (n_ * (m / d_)) + (r.n_ * (m / r.d_));
                 d_ = m;
             } else {
                 n_ += r.n_;
@@ -163,9 +163,9 @@ namespace utils
         {
             if (d_ != r.d_) {
                 T m = utils::lcm(d_, r.d_);
-                return Rational<T>(utils::abs((n_ * m / d_) - (r.n_ * m / r.d_)), m);
+                return Rational<T>(difference_(n_ * (m / d_), r.n_ * (m / r.d_)), m);
             } else {
-                return Rational<T>(utils::abs(n_ - r.n_), d_);
+                return Rational<T>(difference_(n_, r.n_), d_);
             }
         }
 
@@ -173,10 +173,10 @@ namespace utils
         {
             if (d_ != r.d_) {
                 T m = utils::lcm(d_, r.d_);
-                n_ = utils::abs((n_ * m / d_) - (r.n_ * m / r.d_));
+                n_ = difference_(n_ * (m / d_), r.n_ * (m / r.d_));
                 d_ = m;
             } else {
-                n_ = utils::abs(n_ - r.n_);
+                n_ = difference_(n_, r.n_);
             }
             simplify();
             return *this;
@@ -196,6 +196,13 @@ namespace utils
         }
 
     private:
+        // Distance of two numerators.  The wrapped difference of two
+        // unsigned values cannot tell a large distance from a negative one
+        static T difference_(const T &a, const T &b)
+        {
+            return a > b ? a - b : b - a;
+        }
+
         T    n_;  // Numerator
         T    d_;  // Denominator
     };
-- 
2.43.0


From 85bf02b1b0d7548d1464d786ac9b48ae67afbe92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:43 +0000
Subject: [PATCH 09/31] fix: safe_power: detect every overflow

A wrapped product can be larger than the previous one, 3000^3 in 32 bits for
example, and was returned.
---
 sparta/sparta/utils/MathUtils.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sparta/sparta/utils/MathUtils.hpp b/sparta/sparta/utils/MathUtils.hpp
index deb1b12..29074a8 100644
--- a/sparta/sparta/utils/MathUtils.hpp
+++ b/sparta/sparta/utils/MathUtils.hpp
@@ -341,9 +341,7 @@ namespace sparta {
             T result = n;
             for (T x = 1; x < e; x++)
             {
-                T old_result = result;
-                result *= n;
-                if (old_result > result)
+                if (__builtin_mul_overflow(result, n, &result))
                 {
                     throw SpartaException("power() overflowed!");
                 }
-- 
2.43.0


From 27c569b372b086c9dd9e8e990f67b1b98e7614e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:43 +0000
Subject: [PATCH 10/31] fix: lcm of zero and zero divided by zero

---
 sparta/sparta/utils/MathUtils.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sparta/sparta/utils/MathUtils.hpp b/sparta/sparta/utils/MathUtils.hpp
index 29074a8..ad24368 100644
--- a/sparta/sparta/utils/MathUtils.hpp
+++ b/sparta/sparta/utils/MathUtils.hpp
@@ -310,6 +310,8 @@ namespace sparta {
                 return v;
             } else if (v == 1) {
                 return u;
+            } else if (u == 0 || v == 0) {
+                return 0;
             } else {
                 // Do it this way to avoid potential overflows from large numbers
                 return  u / gcd(u, v) * v;
@@ -323,6 +325,8 @@ namespace sparta {
                 return v;
             } else if (v == 1) {
                 return u;
+            } else if (u == 0 || v == 0) {
+                return 0;
             } else {
                 // Do it this way to avoid potential overflows from large numbers
                 return  u / gcd(u, v) * v;
-- 
2.43.0


From 377743fcea335609393b8fe973a3101d4773da97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:43 +0000
Subject: [PATCH 11/31] fix: ones(64) is the mask of all 64 bits

---
 sparta/sparta/utils/MathUtils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/utils/MathUtils.hpp b/sparta/sparta/utils/MathUtils.hpp
index ad24368..22eeed0 100644
--- a/sparta/sparta/utils/MathUtils.hpp
+++ b/sparta/sparta/utils/MathUtils.hpp
@@ -180,7 +180,8 @@ namespace sparta {
         }
 
         constexpr uint64_t ones (uint64_t x) {
-            const uint64_t y = (static_cast<uint64_t>(1) << x) - 1;
+            // All 64 bits: a shift by the width is undefined
+            const uint64_t y = x >= 64 ? ~static_cast<uint64_t>(0) : (static_cast<uint64_t>(1) << x) - 1;
             return y;
         }
 
-- 
2.43.0


From 6ad657fa03a6e7695170482dba5876cf735a334d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:43 +0000
Subject: [PATCH 12/31] fix: computeMask for sizes beyond the range of int

---
 sparta/sparta/utils/Utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/utils/Utils.hpp b/sparta/sparta/utils/Utils.hpp
index c7460e8..932ee5a 100644
--- a/sparta/sparta/utils/Utils.hpp
+++ b/sparta/sparta/utils/Utils.hpp
@@ -177,7 +177,7 @@ inline T computeMask(T size, T& lsb_pos) {
                 << size;
         }
         lsb_pos = (T)tmp;
-        mask = ~((1 << lsb_pos) - 1);
+        mask = ~((T(1) << lsb_pos) - 1);
 
         sparta_assert((1ul << lsb_pos) == size);
     }else{
-- 
2.43.0


From 26b4b2bd4718c1cf8fe7663008c8a7c89a61931d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:13 +0000
Subject: [PATCH 13/31] fix: RegisterBits::none is true only when no bit is set

It was true for every one-byte value and whenever all bytes are equal.
---
 sparta/sparta/functional/RegisterBits.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/functional/RegisterBits.hpp b/sparta/sparta/functional/RegisterBits.hpp
index 1db515a..17aee3e 100644
--- a/sparta/sparta/functional/RegisterBits.hpp
+++ b/sparta/sparta/functional/RegisterBits.hpp
@@ -713,7 +713,8 @@ namespace sparta
         bool none() const {
             sparta_assert(num_bytes_ > 0);
             const auto mem_data_plus_one = remote_data_ + 1;
-            return (::memcmp(remote_data_, mem_data_plus_one, num_bytes_ - 1) == 0);
+            return (remote_data_[0] == 0) &&
+                (::memcmp(remote_data_, mem_data_plus_one, num_bytes_ - 1) == 0);
         }
 
         /**
-- 
2.43.0


From 856f3211122ea71413c6603d47d1c4a985993543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:13 +0000
Subject: [PATCH 14/31] fix: RegisterBits shifts by the full width or more

They shifted built-in types by their width or more and, above 8 bytes,
operator>> ran past the storage.
---
 sparta/sparta/functional/RegisterBits.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/functional/RegisterBits.hpp b/sparta/sparta/functional/RegisterBits.hpp
index 17aee3e..5b9a5b7 100644
--- a/sparta/sparta/functional/RegisterBits.hpp
+++ b/sparta/sparta/functional/RegisterBits.hpp
@@ -312,6 +312,9 @@ namespace sparta
          */
         RegisterBits operator>>(uint32_t shift) const
         {
+            if(shift >= num_bytes_ * 8) {
+                return RegisterBits(num_bytes_); // everything is shifted out
+            }
             if(num_bytes_ == 8) {
                 return bitShiftRight_<uint64_t>(*this, shift);
             }
@@ -370,7 +373,7 @@ namespace sparta
                     {
                         const uint64_t prev_dbl_word_bits_dropped_mask =
                             (uint64_t)(-(remaining_bits_to_shift != 0) &
-                                       (-1 >> ((sizeof(uint64_t) * 8) - remaining_bits_to_shift)));
+                                       (std::numeric_limits<uint64_t>::max() >> ((sizeof(uint64_t) * 8) - remaining_bits_to_shift)));
                         const uint32_t prev_dbl_word_bit_pos = 64 - remaining_bits_to_shift;
                         uint32_t idx =0;
                         while(true)
@@ -404,6 +407,9 @@ namespace sparta
          */
         RegisterBits operator<<(uint32_t shift) const
         {
+            if(shift >= num_bytes_ * 8) {
+                return RegisterBits(num_bytes_); // everything is shifted out
+            }
             if(num_bytes_ == 8) {
                 return bitShiftLeft_<uint64_t>(*this, shift);
             }
@@ -526,6 +532,10 @@ namespace sparta
         void operator<<=(uint32_t shift)
         {
             convert_();
+            if(shift >= num_bytes_ * 8) {
+                ::memset(local_data_, 0, num_bytes_); // everything is shifted out
+                return;
+            }
             if(num_bytes_ == 8) {
                 *reinterpret_cast<uint64_t*>(local_data_) =
                     (*reinterpret_cast<const uint64_t*>(remote_data_)) << shift;
-- 
2.43.0


From 1f42efb5c3420b448db2261ee5168a2b3a5f496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:30 +0000
Subject: [PATCH 15/31] fix: RegisterBits::operator<<= by 64 bits or more in
 place

The copy ran from the bottom and overwrote double words before they were
moved, with more than two double words.
---
 sparta/sparta/functional/RegisterBits.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sparta/sparta/functional/RegisterBits.hpp b/sparta/sparta/functional/RegisterBits.hpp
index 5b9a5b7..dd618a5 100644
--- a/sparta/sparta/functional/RegisterBits.hpp
+++ b/sparta/sparta/functional/RegisterBits.hpp
@@ -580,11 +580,11 @@ namespace sparta
                 //
                 if(double_word_shift_count > 0)
                 {
-                    uint32_t dest_idx = double_word_shift_count;
-                    for(uint32_t src_idx = 0; dest_idx < num_dbl_words; ++dest_idx, ++src_idx) {
-                        *(final_data + dest_idx) = *(src_data + src_idx);
-                        *(src_data + src_idx) = 0;
+                    // In place: from the top, a double word is read before it is overwritten
+                    for(uint32_t dest_idx = num_dbl_words; dest_idx-- > double_word_shift_count;) {
+                        *(final_data + dest_idx) = *(src_data + (dest_idx - double_word_shift_count));
                     }
+                    ::memset(final_data, 0, double_word_shift_count * sizeof(uint64_t));
                 }
 
                 // Micro-shift:
-- 
2.43.0


From 80af70c9b8956aba3da0bc6372f76626ce57839c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:30 +0000
Subject: [PATCH 16/31] fix: copying or moving RegisterBits that wrap external
 data keeps the value

Up to 8 bytes the uninitialised internal storage was copied instead of the
wrapped data; moving larger ones left a null pointer.
---
 sparta/sparta/functional/RegisterBits.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/functional/RegisterBits.hpp b/sparta/sparta/functional/RegisterBits.hpp
index dd618a5..40f6646 100644
--- a/sparta/sparta/functional/RegisterBits.hpp
+++ b/sparta/sparta/functional/RegisterBits.hpp
@@ -161,8 +161,10 @@ namespace sparta
             num_bytes_(orig.num_bytes_)
         {
             if(num_bytes_ <= local_storage_.size()) {
-                local_storage_ = orig.local_storage_;
                 local_data_ = orig.local_data_ == nullptr ? nullptr : local_storage_.data();
+                if(local_data_ != nullptr) {
+                    ::memcpy(local_data_, orig.local_data_, num_bytes_);
+                }
             }
             else if (orig.local_data_ == nullptr) {
                 local_data_ = nullptr;
@@ -186,12 +188,19 @@ namespace sparta
             num_bytes_(orig.num_bytes_)
         {
             if(num_bytes_ <= local_storage_.size()) {
-                local_storage_ = std::move(orig.local_storage_);
                 local_data_  = (orig.local_data_ == nullptr ? nullptr : local_storage_.data());
+                if(local_data_ != nullptr) {
+                    ::memcpy(local_data_, orig.local_data_, num_bytes_);
+                }
             }
             else if (orig.local_data_ == nullptr) {
                 local_data_ = nullptr;
             }
+            else if (orig.local_storage_alt_ == nullptr) {
+                local_storage_alt_.reset(new uint8_t[num_bytes_]);
+                local_data_ = local_storage_alt_.get();
+                ::memcpy(local_data_, orig.local_data_, num_bytes_);
+            }
             else {
                 local_storage_alt_ = std::move(orig.local_storage_alt_);
                 local_data_ = local_storage_alt_.get();
-- 
2.43.0


From 1f81f190a8a29ef6702e56b9cd2b0ff286cbb10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:41 +0000
Subject: [PATCH 17/31] fix: BitArray assignment and move must not alias the
 other array's storage

---
 sparta/sparta/utils/BitArray.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/utils/BitArray.hpp b/sparta/sparta/utils/BitArray.hpp
index 583e0c7..2f2845c 100644
--- a/sparta/sparta/utils/BitArray.hpp
+++ b/sparta/sparta/utils/BitArray.hpp
@@ -89,11 +89,24 @@ namespace sparta {
                 std::copy(other.data_, other.data_ + data_size_, data_);
             }
 
-            BitArray &operator=(const BitArray &other) = default;
+            BitArray &operator=(const BitArray &other)
+            {
+                if (this != &other) {
+                    data_ls_ = other.data_ls_;
+                    std::copy(other.data_ss_, other.data_ss_ + SMALL_OPTIMIZATION_SIZE, data_ss_);
+                    data_size_ = other.data_size_;
+                    // never the storage of the other array
+                    data_ = data_size_ > SMALL_OPTIMIZATION_SIZE ? data_ls_.data() : data_ss_;
+                }
+                return *this;
+            }
 
-            BitArray(BitArray &&) = default;
+            BitArray(BitArray &&other) : BitArray(static_cast<const BitArray &>(other)) {}
 
-            BitArray &operator=(BitArray &&) = default;
+            BitArray &operator=(BitArray &&other)
+            {
+                return *this = static_cast<const BitArray &>(other);
+            }
 
             const void *getValue() const
             {
-- 
2.43.0


From 2c6a995d3ca57e89ae5c0a943f1d71f307c68b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:41 +0000
Subject: [PATCH 18/31] fix: BitArray shifts by more than its size ran outside
 the storage

---
 sparta/sparta/utils/BitArray.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sparta/sparta/utils/BitArray.hpp b/sparta/sparta/utils/BitArray.hpp
index 2f2845c..eda3663 100644
--- a/sparta/sparta/utils/BitArray.hpp
+++ b/sparta/sparta/utils/BitArray.hpp
@@ -261,6 +261,7 @@ namespace sparta {
                 const auto first = array.data_;
                 const auto last = array.data_ + array.data_size_;
 
+                amount = std::min(amount, array.data_size_);
                 std::rotate(first, last - amount, last);
                 std::fill(first, first + amount, 0);
             }
@@ -291,6 +292,7 @@ namespace sparta {
                 const auto first = array.data_;
                 const auto last = array.data_ + array.data_size_;
 
+                amount = std::min(amount, array.data_size_);
                 std::rotate(first, first + amount, last);
                 std::fill(last - amount, last, 0);
             }
-- 
2.43.0


From 57e002d7dfa2075d267234bcd1da31219c9cf08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:25 +0000
Subject: [PATCH 19/31] fix: byte_swap of negative 16-bit values

The sign extension of val >> 8 was or'ed over the swapped upper byte.
---
 sparta/sparta/utils/ByteOrder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/utils/ByteOrder.hpp b/sparta/sparta/utils/ByteOrder.hpp
index 4144b62..fcf82c1 100644
--- a/sparta/sparta/utils/ByteOrder.hpp
+++ b/sparta/sparta/utils/ByteOrder.hpp
@@ -107,7 +107,7 @@ namespace sparta
     //! \overload byte_swap(T val)
     template <>
     inline int16_t byte_swap(int16_t val) {
-        return (val << 8 | val >> 8);
+        return byte_swap(static_cast<uint16_t>(val));
     }
 
     //! \overload byte_swap(T val)
-- 
2.43.0


From dfbf6e649bd6d292ec91538020d9c159e1f6d7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:23 +0000
Subject: [PATCH 20/31] fix: SpartaWeakPointer::lock of an expired pointer is
 null

It returned a pointer that counted as an owner of the dead object (and with
an allocator referred to the destroyed object).
---
 sparta/sparta/utils/SpartaSharedPointer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/utils/SpartaSharedPointer.hpp b/sparta/sparta/utils/SpartaSharedPointer.hpp
index fcdc796..44c6cd7 100644
--- a/sparta/sparta/utils/SpartaSharedPointer.hpp
+++ b/sparta/sparta/utils/SpartaSharedPointer.hpp
@@ -514,7 +514,8 @@ namespace sparta
          * \return nullptr if the SpartaSharedPointer has expired; otherwise a locked version
          */
         SpartaSharedPointer<PointerT> lock() const noexcept {
-            return SpartaSharedPointer<PointerT>(wp_ref_cnt_, true);
+            return expired() ? SpartaSharedPointer<PointerT>() :
+                SpartaSharedPointer<PointerT>(wp_ref_cnt_, true);
         }
 
     private:
-- 
2.43.0


From 2662d5624e7168fc11e6924af2d11bae4d93b81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:36 +0000
Subject: [PATCH 21/31] fix: SpartaSharedPointer assignment from a pointer
 owned by the released object

'head = head->next' read the source after it was destroyed with the object.
---
 sparta/sparta/utils/SpartaSharedPointer.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sparta/sparta/utils/SpartaSharedPointer.hpp b/sparta/sparta/utils/SpartaSharedPointer.hpp
index 44c6cd7..a9c397b 100644
--- a/sparta/sparta/utils/SpartaSharedPointer.hpp
+++ b/sparta/sparta/utils/SpartaSharedPointer.hpp
@@ -195,11 +195,10 @@ namespace sparta
         SpartaSharedPointer & operator=(const SpartaSharedPointer & orig)
         {
             sparta_assert(&orig != this);
+            SpartaSharedPointer keep(orig); // orig may die with the object released here
             unlink_();
-            ref_count_ = orig.ref_count_;
-            if(SPARTA_EXPECT_TRUE(ref_count_ != nullptr)) {
-                ++ref_count_->count;
-            }
+            ref_count_ = keep.ref_count_;
+            keep.ref_count_ = nullptr;
             return *this;
         }
 
@@ -214,9 +213,10 @@ namespace sparta
         SpartaSharedPointer & operator=(SpartaSharedPointer && orig)
         {
             sparta_assert(&orig != this);
+            SpartaSharedPointer keep(std::move(orig)); // orig may die with the object released here
             unlink_();
-            ref_count_ = orig.ref_count_;
-            orig.ref_count_ = nullptr;
+            ref_count_ = keep.ref_count_;
+            keep.ref_count_ = nullptr;
             return *this;
         }
 
-- 
2.43.0


From 370a803bc27e20d9a4b0a71a5b16ecfb5c71c126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:45 +0000
Subject: [PATCH 22/31] fix: SpartaSharedPointerAllocator handed out one block
 twice

when the constructor of the allocated object allocates from the same
allocator: both objects were built in the same storage.
---
 .../sparta/utils/SpartaSharedPointerAllocator.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/utils/SpartaSharedPointerAllocator.hpp b/sparta/sparta/utils/SpartaSharedPointerAllocator.hpp
index 851caab..e129dcf 100644
--- a/sparta/sparta/utils/SpartaSharedPointerAllocator.hpp
+++ b/sparta/sparta/utils/SpartaSharedPointerAllocator.hpp
@@ -347,10 +347,19 @@ namespace sparta
 
                 // construct value in memory of aligned storage
                 // using inplace operator new
-                auto block = new(&data_[size_]) MemBlock(alloc, std::forward<Args>(args)...);
+                // The storage is taken before the construction: the
+                // object's constructor may itself allocate
+                auto storage = &data_[size_];
                 ++size_;
-
-                return block;
+                try {
+                    return new(storage) MemBlock(alloc, std::forward<Args>(args)...);
+                }
+                catch(...) {
+                    if(storage + 1 == &data_[0] + size_) {
+                        --size_;
+                    }
+                    throw;
+                }
             }
 
             // Access an object in aligned storage
-- 
2.43.0


From c625306c3b02f2ea70ed0bd85f8f2f01d4313e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:44 +0000
Subject: [PATCH 23/31] fix: a run that ends before its limit leaves no stop
 event behind

Scheduler::run(n) schedules its stop event n ticks ahead. When the run ended
earlier (no more continuing events, or stopRunning), the event stayed pending
and ended a later run before that run's own limit.
---
 sparta/src/Scheduler.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sparta/src/Scheduler.cpp b/sparta/src/Scheduler.cpp
index e1af41d..b48a157 100644
--- a/sparta/src/Scheduler.cpp
+++ b/sparta/src/Scheduler.cpp
@@ -658,6 +658,12 @@ void Scheduler::run(Tick num_ticks,
     // Reset the Scheduling phase
     current_scheduling_phase_ = SchedulingPhase::Trigger;
 
+    // If this run ended before its stop event was reached, that event
+    // must not end a later run
+    if(num_ticks != INDEFINITE) {
+        cancelEvent(stop_event_.get());
+    }
+
     // Update elapsed_ticks_
     elapsed_ticks_ += std::llabs(int64_t(current_tick_) - int64_t(elapsed_ticks_));
 
-- 
2.43.0


From 04a869e1ce7739630688b435f4965bf30e454439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:25 +0000
Subject: [PATCH 24/31] fix: moving or self-assigning a ScheduleableHandle
 keeps its count

---
 sparta/sparta/events/Scheduleable.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/events/Scheduleable.hpp b/sparta/sparta/events/Scheduleable.hpp
index 9271852..2e43dab 100644
--- a/sparta/sparta/events/Scheduleable.hpp
+++ b/sparta/sparta/events/Scheduleable.hpp
@@ -547,8 +547,12 @@ namespace sparta
         //! Create an empty Handle
         ScheduleableHandle() = default;
 
-        // Default move
-        ScheduleableHandle(ScheduleableHandle &&) = default;
+        //! Move a Handle, the count moves along
+        ScheduleableHandle(ScheduleableHandle && orig) noexcept :
+            scheduleable_(orig.scheduleable_)
+        {
+            orig.scheduleable_ = nullptr;
+        }
 
         //! Copy a Handle, increment the count
         ScheduleableHandle(const ScheduleableHandle & orig)
@@ -610,6 +614,9 @@ namespace sparta
 
         //! Assignment
         ScheduleableHandle & operator=(const ScheduleableHandle & rhs) {
+            if(this == &rhs) {
+                return *this;
+            }
             disconnect_();
             scheduleable_ = rhs.scheduleable_;
             connect_();
-- 
2.43.0


From 467dc44837d01a6266b6063b2cf1c0fc103d43be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:45 +0000
Subject: [PATCH 25/31] fix: PhasedPayloadEvent::cancel at a time returns the
 number it cancelled

---
 sparta/sparta/events/PhasedPayloadEvent.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/events/PhasedPayloadEvent.hpp b/sparta/sparta/events/PhasedPayloadEvent.hpp
index 79b7149..f5fa02b 100644
--- a/sparta/sparta/events/PhasedPayloadEvent.hpp
+++ b/sparta/sparta/events/PhasedPayloadEvent.hpp
@@ -334,14 +334,18 @@ namespace sparta
          * This will cancel all instances of this event at the given cycle.
          */
         uint32_t cancel(Clock::Cycle rel_cycle) {
-            const uint32_t cancel_cnt = inflight_pl_.size();
+            uint32_t cancel_cnt = 0;
             auto bit = inflight_pl_.begin();
             while(bit != inflight_pl_.end()) {
                 auto proxy = *bit;
                 ++bit;
                 // Cancelling the event will change the inflight_pl_
                 // list, hence we cannot use a range for loop
+                const bool was_scheduled = proxy->scheduled_;
                 proxy->cancel(rel_cycle);
+                if(was_scheduled && !proxy->scheduled_) {
+                    ++cancel_cnt;
+                }
             }
             return cancel_cnt;
         }
-- 
2.43.0


From ef1c9c329788bf357d933f58792d5a562ca1f58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:38 +0000
Subject: [PATCH 26/31] fix: cancelling at the current time does not reach
 events that fired already

---
 sparta/src/Scheduler.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sparta/src/Scheduler.cpp b/sparta/src/Scheduler.cpp
index b48a157..0fd9b0d 100644
--- a/sparta/src/Scheduler.cpp
+++ b/sparta/src/Scheduler.cpp
@@ -784,7 +784,14 @@ void Scheduler::cancelEvent(const Scheduleable * scheduleable, Tick rel_time)
             for(uint32_t i = 0; i < scheduleables.size(); ++i)
             {
                 if(scheduleables[i] == scheduleable) {
-                    scheduleables[i]->eventCancelled_();
+                    // An event of the group being fired right now
+                    // that was fired already is not cancelled
+                    const bool fired = (rit == current_tick_quantum_) &&
+                        (dag_group == current_group_firing_) &&
+                        (i <= current_event_firing_);
+                    if(SPARTA_EXPECT_TRUE(!fired)) {
+                        scheduleables[i]->eventCancelled_();
+                    }
                     scheduleables[i] = cancelled_event_.get();
                     if(SPARTA_EXPECT_FALSE(debug_)) {
                         debug_ << SPARTA_CURRENT_COLOR_BRIGHT_YELLOW
-- 
2.43.0


From 617de110fe0076f63288dd2fbefd1edb0a73d96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:19 +0000
Subject: [PATCH 27/31] fix: PhasedSingleCycleUniqueEvent can be scheduled
 again after a cancel and twice in tick 0

---
 .../events/PhasedSingleCycleUniqueEvent.hpp   | 35 ++++++++++++++-----
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/sparta/sparta/events/PhasedSingleCycleUniqueEvent.hpp b/sparta/sparta/events/PhasedSingleCycleUniqueEvent.hpp
index 3653b09..7a7ef8f 100644
--- a/sparta/sparta/events/PhasedSingleCycleUniqueEvent.hpp
+++ b/sparta/sparta/events/PhasedSingleCycleUniqueEvent.hpp
@@ -10,6 +10,7 @@
 #pragma once
 
 #include <array>
+#include <limits>
 #include <memory>
 #include <string>
 #include "sparta/simulation/TreeNode.hpp"
@@ -58,7 +59,9 @@ namespace sparta
             EventNode(event_set, name, sched_phase),
             local_clk_(getClock()),
             fancy_name_(name + "[" + consumer_event_handler.getName() + "]"),
-            single_cycle_event_scheduleable_(consumer_event_handler, 1 /*HARD CODED*/, sched_phase)
+            pscue_consumer_event_handler_(consumer_event_handler),
+            single_cycle_event_scheduleable_(CREATE_SPARTA_HANDLER(PhasedSingleCycleUniqueEvent, deliverEvent_),
+                                             1 /*HARD CODED*/, sched_phase)
         {
             single_cycle_event_scheduleable_.setScheduleableClock(getClock());
             single_cycle_event_scheduleable_.setLabel(fancy_name_.c_str());
@@ -89,6 +92,10 @@ namespace sparta
          */
         void cancel() {
             single_cycle_event_scheduleable_.cancel();
+            // Nothing is pending anymore: only the tick the event
+            // was last delivered in stays closed
+            next_scheduled_tick_ = last_delivered_tick_;
+            prev_scheduled_tick_ = last_delivered_tick_;
         }
 
         /*!
@@ -129,7 +136,8 @@ namespace sparta
             const auto to_be_scheduled_abs_tick =
                 local_scheduler_->calcIndexTime(to_be_scheduled_relative_tick);
 
-            if(SPARTA_EXPECT_TRUE(next_scheduled_tick_ < to_be_scheduled_abs_tick || is_init_tick_))
+            if(SPARTA_EXPECT_TRUE(next_scheduled_tick_ < to_be_scheduled_abs_tick ||
+                                  next_scheduled_tick_ == NO_TICK))
             {
 #ifndef NDEBUG
                 // This is a handy debug assertion to see if
@@ -142,7 +150,6 @@ namespace sparta
                     scheduleRelativeTick(to_be_scheduled_relative_tick, local_scheduler_);
                 prev_scheduled_tick_ = next_scheduled_tick_;
                 next_scheduled_tick_ = to_be_scheduled_abs_tick;
-                is_init_tick_ = false; //only allow one event in tick 0
             }
             else if((to_be_scheduled_abs_tick < next_scheduled_tick_) &&
                     (prev_scheduled_tick_ != to_be_scheduled_abs_tick))
@@ -153,7 +160,7 @@ namespace sparta
                 //
                 sparta_assert(single_cycle_event_scheduleable_.isScheduled(rel_cycle) == false,
                               "Bummer!  You found a bug in PhasedSingleCycleUniqueEvent.  Please file a GitHub Issue");
-                sparta_assert(prev_scheduled_tick_ < to_be_scheduled_abs_tick,
+                sparta_assert(prev_scheduled_tick_ == NO_TICK || prev_scheduled_tick_ < to_be_scheduled_abs_tick,
                               "Bummer!  You found a bug in PhasedSingleCycleUniqueEvent.  Please file a GitHub Issue")
 #endif
                 single_cycle_event_scheduleable_.
@@ -184,6 +191,12 @@ namespace sparta
 #endif
 
     private:
+        //! Remember the tick of the delivery and call the consumer
+        void deliverEvent_() {
+            last_delivered_tick_ = local_clk_->getScheduler()->getCurrentTick();
+            pscue_consumer_event_handler_();
+        }
+
         //! Called by the framework on all TreeNodes
         void createResource_() override {
             local_clk_ = getClock();
@@ -198,17 +211,21 @@ namespace sparta
 
         //! The last time this PhasedSingleCycleUniqueEvent was scheduled (rel cycle == [0,1])
         //std::array<Scheduler::Tick, 2> next_scheduled_tick_ = {0, 0};
-        Scheduler::Tick next_scheduled_tick_ = 0;
-        Scheduler::Tick prev_scheduled_tick_ = 0;
+        static constexpr Scheduler::Tick NO_TICK = std::numeric_limits<Scheduler::Tick>::max();
+        Scheduler::Tick next_scheduled_tick_ = NO_TICK;
+        Scheduler::Tick prev_scheduled_tick_ = NO_TICK;
+
+        //! The last time this PhasedSingleCycleUniqueEvent was delivered
+        Scheduler::Tick last_delivered_tick_ = NO_TICK;
 
         //! A fancy name for the event handler
         std::string fancy_name_;
 
+        //! The consumer's handler
+        SpartaHandler pscue_consumer_event_handler_;
+
         //! The actual scheduled item on the scheduler
         Scheduleable single_cycle_event_scheduleable_;
-
-        //! Track if is in the initial tick = tick 0
-        bool is_init_tick_ = true;
     };
 
 }
-- 
2.43.0


From 0c118746ac04009e0cba74f3f20a5d035039bf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:41 +0000
Subject: [PATCH 28/31] fix: a payload lives until its delivery is over

---
 sparta/sparta/events/PhasedPayloadEvent.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/events/PhasedPayloadEvent.hpp b/sparta/sparta/events/PhasedPayloadEvent.hpp
index f5fa02b..cbf37e4 100644
--- a/sparta/sparta/events/PhasedPayloadEvent.hpp
+++ b/sparta/sparta/events/PhasedPayloadEvent.hpp
@@ -87,7 +87,7 @@ namespace sparta
             // if it's not on the Scheduler and there are not handles
             // pointing to it.
             void reclaim_() override {
-                if(!scheduled_ && (getScheduleableHandleCount_() == 0)) {
+                if(!scheduled_ && !delivering_ && (getScheduleableHandleCount_() == 0)) {
                     parent_->reclaimProxy_(loc_);
                     cancelled_ = false;
                 }
@@ -133,7 +133,11 @@ namespace sparta
                             << parent_->name_ << " to handler: "
                             << target_consumer_event_handler_.getName());
                 scheduled_ = false;
+                // The payload lives until its delivery is over, even
+                // if it is cancelled or its last handle is dropped
+                delivering_ = true;
                 target_consumer_event_handler_((const void*)payload_);
+                delivering_ = false;
                 reclaim_();
             }
 
@@ -144,6 +148,7 @@ namespace sparta
             typename ProxyInflightList::iterator loc_;
             bool scheduled_ = false;
             bool cancelled_ = false;
+            bool delivering_ = false;
         };
 
 
-- 
2.43.0


From 6981d957facae8565c49bb91ba1d8a927d824762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:53 +0000
Subject: [PATCH 29/31] fix: send on data and signal ports with a delay of 2^32
 cycles or more

The total delay was truncated to 32 bits: such a send was delivered early
(or, for a multiple of 2^32, in the current cycle).
---
 sparta/sparta/ports/DataPort.hpp   | 2 +-
 sparta/sparta/ports/SignalPort.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/ports/DataPort.hpp b/sparta/sparta/ports/DataPort.hpp
index 5e2c364..fbd9bc6 100644
--- a/sparta/sparta/ports/DataPort.hpp
+++ b/sparta/sparta/ports/DataPort.hpp
@@ -503,7 +503,7 @@ namespace sparta
          */
         void send_(const DataT & dat, sparta::Clock::Cycle rel_time)
         {
-            const uint32_t total_delay = rel_time + port_delay_;
+            const sparta::Clock::Cycle total_delay = rel_time + port_delay_;
 
             // Most of the time there is a delay.
             if(SPARTA_EXPECT_FALSE(total_delay == 0))
diff --git a/sparta/sparta/ports/SignalPort.hpp b/sparta/sparta/ports/SignalPort.hpp
index 5957dad..55e1c9d 100644
--- a/sparta/sparta/ports/SignalPort.hpp
+++ b/sparta/sparta/ports/SignalPort.hpp
@@ -282,7 +282,7 @@ namespace sparta
          */
         void send_(sparta::Clock::Cycle rel_time)
         {
-            const uint32_t total_delay = rel_time + port_delay_;
+            const sparta::Clock::Cycle total_delay = rel_time + port_delay_;
             // Most of the time there is a delay.
             if(SPARTA_EXPECT_FALSE(total_delay == 0))
             {
-- 
2.43.0


From 955d7260407337af290c8a91b5c9ffbe3200ce17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:25 +0000
Subject: [PATCH 30/31] fix: FrontArray::readValid looks for the nth valid
 entry and rvalue pushes compile

---
 sparta/sparta/resources/FrontArray.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/resources/FrontArray.hpp b/sparta/sparta/resources/FrontArray.hpp
index e7b9121..ee4319f 100644
--- a/sparta/sparta/resources/FrontArray.hpp
+++ b/sparta/sparta/resources/FrontArray.hpp
@@ -57,7 +57,7 @@ namespace sparta{
             uint32_t i = 0;
             while(n <= nth)
             {
-                if(BaseArray::isValid(n))
+                if(BaseArray::isValid(i))
                 {
                     ++n;
                 }
@@ -132,7 +132,7 @@ namespace sparta{
          * \param dat The data to push
          * \return The index it was inserted
          */
-        uint32_t push_front(DataT&& dat) { return writeFront(std::forward(dat)); }
+        uint32_t push_front(DataT&& dat) { return writeFront(std::move(dat)); }
 
         /**
          * \brief Push the first available index in the Array starting from the back
@@ -146,7 +146,7 @@ namespace sparta{
          * \param dat The data to push
          * \return The index it was inserted
          */
-        uint32_t push_back(DataT && dat) { return writeBack(std::forward(dat)); }
+        uint32_t push_back(DataT && dat) { return writeBack(std::move(dat)); }
 
     private:
         template<typename U>
-- 
2.43.0


From 56ffcd91506169044bd6a4537ff4f47a63a4b368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:25 +0000
Subject: [PATCH 31/31] fix: access window check when addr+size wraps around

---
 sparta/sparta/memory/DebugMemoryIF.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/memory/DebugMemoryIF.hpp b/sparta/sparta/memory/DebugMemoryIF.hpp
index 13e7fbb..e19772f 100644
--- a/sparta/sparta/memory/DebugMemoryIF.hpp
+++ b/sparta/sparta/memory/DebugMemoryIF.hpp
@@ -344,7 +344,7 @@ namespace sparta
             void verifyInAccessWindows(addr_t addr, addr_t size) const {
                 // Assumes 1 access window
                 sparta_assert(acc_windows_.size() == 1); // This code is invalid once more than 1 window is supported
-                if(__builtin_expect(addr < acc_windows_[0].start || addr+size > acc_windows_[0].end, 0)){
+                if(__builtin_expect(!isInAccessWindows(addr, size), 0)){
                     MemoryAccessError ex(addr, size, "any", "The access at does not fit within access windows: ");
                     ex << "{ [" << acc_windows_[0].start << "," << acc_windows_[0].end << ") }";
                     throw ex;
@@ -363,7 +363,9 @@ namespace sparta
             bool isInAccessWindows(addr_t addr, addr_t size) const {
                 // Assumes 1 access window
                 sparta_assert(acc_windows_.size() == 1); // This code is invalid once more than 1 window is supported
-                return addr >= acc_windows_[0].start && addr+size <= acc_windows_[0].end;
+                // Note: addr+size may wrap around
+                return addr >= acc_windows_[0].start && addr <= acc_windows_[0].end
+                    && size <= acc_windows_[0].end - addr;
             }
 
             /*!
-- 
2.43.0

