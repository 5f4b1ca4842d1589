From a22d883e732efe2da25adac06f0e77e7662e0c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:10 +0000
Subject: [PATCH 01/37] fix: ImageBase::getHeight() returned the width

---
 boofcpp/src/boofcv/image_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index ddf14b8..1ca6cd3 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -44,7 +44,7 @@ namespace boofcv {
         }
 
         uint32_t getHeight() const {
-            return width;
+            return height;
         }
 
         /**
-- 
2.43.0


From a6be4444838ae934815c8fe8cb4436a148a79538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:10 +0000
Subject: [PATCH 02/37] fix: copy constructed Gray image shared (and freed
 twice) the storage of the original

---
 boofcpp/src/boofcv/image_types.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 1ca6cd3..73dca6b 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -135,6 +135,13 @@ namespace boofcv {
         Gray() : Gray(0,0) {
         }
 
+        /**
+         * Copy of an image which owns its data owns a copy of the data. Copy of a sub-image is also a sub-image
+         */
+        Gray( const Gray<T>& other ) : Gray(0,0) {
+            *this = other;
+        }
+
         ~Gray() {
             if( !this->subimage ) {
                 delete[]this->data;
-- 
2.43.0


From 6b447fac6600af92d23bf21a2ca5f455aaf4bf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:10 +0000
Subject: [PATCH 03/37] fix: assigning a sub-image leaked the storage of the
 Gray image assigned to

---
 boofcpp/src/boofcv/image_types.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 73dca6b..0fe207b 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -208,6 +208,10 @@ namespace boofcv {
         {
             if (this != &other) { // self-assignment check expected
                 if( other.subimage ) {
+                    // release memory it owns, unless it is becoming a view of that same memory
+                    if( !this->subimage && this->data != other.data ) {
+                        delete []this->data;
+                    }
                     this->data = other.data;
                     this->data_length = other.data_length;
                     this->width = other.width;
-- 
2.43.0


From cb38eaeb47d6a5f6886ef560ce6d5b0a031b1fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:11 +0000
Subject: [PATCH 04/37] fix: Gray leaked its storage when the initializer list
 is ragged

---
 boofcpp/src/boofcv/image_types.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 0fe207b..a4027cb 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -124,6 +124,7 @@ namespace boofcv {
             T* ptr = this->data;
             for (auto& x : l ) {
                 if( x.size() != this->width ) {
+                    delete []this->data;
                     throw invalid_argument("width missmatch");
                 }
                 for(auto& y : x ) {
-- 
2.43.0


From 84b6430c35f046a703e092ad602f7ccfb590c561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:11 +0000
Subject: [PATCH 05/37] fix: Interleaved::at() did not check the band

---
 boofcpp/src/boofcv/image_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index a4027cb..a4e1c54 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -430,7 +430,7 @@ namespace boofcv {
         }
 
         T& at( uint32_t x , uint32_t y , uint32_t band ) const {
-            if( x >= this->width || y >= this->height )
+            if( x >= this->width || y >= this->height || band >= this->num_bands )
                 throw invalid_argument("out of range");
             return data[this->offset + y*this->stride + x*this->num_bands + band];
         }
-- 
2.43.0


From 20e215a765ef35dded9fa50467918ce164d1ca64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:11 +0000
Subject: [PATCH 06/37] fix: Interleaved::setTo() copied only part of each row
 for pixels larger than a byte

---
 boofcpp/src/boofcv/image_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index a4e1c54..b30b471 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -468,7 +468,7 @@ namespace boofcv {
             }
             // This will handle the situation where all of some of the images are sub-images
             for( uint32_t y = 0; y < this->height; y++ ) {
-                memcpy(this->data+this->offset+y*this->stride,src.data+src.offset+y*src.stride,src.width*this->num_bands);
+                memcpy(this->data+this->offset+y*this->stride,src.data+src.offset+y*src.stride,sizeof(T)*src.width*this->num_bands);
             }
         }
 
-- 
2.43.0


From 24482dfe09a14042398818c2e0859c2d191a8a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:11 +0000
Subject: [PATCH 07/37] fix: copied and assigned Interleaved images shared (and
 freed twice) the storage of the original

---
 boofcpp/src/boofcv/image_types.h | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index b30b471..0688fdb 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -375,6 +375,36 @@ namespace boofcv {
         Interleaved() : Interleaved(0,0,0) {
         }
 
+        /**
+         * Copy of an image which owns its data owns a copy of the data. Copy of a sub-image is also a sub-image
+         */
+        Interleaved( const Interleaved<T>& other ) : Interleaved(0,0,0) {
+            *this = other;
+        }
+
+        Interleaved<T>& operator=(const Interleaved<T>& other) // copy assignment
+        {
+            if( this != &other ) {
+                if( other.subimage ) {
+                    // release memory it owns, unless it is becoming a view of that same memory
+                    if( !this->subimage && this->data != other.data ) {
+                        delete []this->data;
+                    }
+                    this->data = other.data;
+                    this->data_length = other.data_length;
+                    this->width = other.width;
+                    this->height = other.height;
+                    this->num_bands = other.num_bands;
+                    this->offset = other.offset;
+                    this->stride = other.stride;
+                    this->subimage = true;
+                } else {
+                    this->setTo(other);
+                }
+            }
+            return *this;
+        }
+
         ~Interleaved() {
             if( !this->subimage ) {
                 this->width = 0;
-- 
2.43.0


From 63c8dc402a708e552f8bfa6c24b4a7a158f5799e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:11 +0000
Subject: [PATCH 08/37] fix: Planar destructor deleted the array of bands
 instead of each band

---
 boofcpp/src/boofcv/image_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 0688fdb..aaf63da 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -261,7 +261,7 @@ namespace boofcv {
             this->offset = 0;
             this->stride = 0;
             for( uint32_t i = 0; i < num_bands; i++ ) {
-                delete bands;
+                delete bands[i];
             }
             delete []bands;
             bands = NULL;
-- 
2.43.0


From a4ce2f5a4f52299e530123cd8e7e43009a28c21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:11 +0000
Subject: [PATCH 09/37] fix: Planar::setNumberOfBands() did not compile when
 used

---
 boofcpp/src/boofcv/image_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index aaf63da..83dcb4c 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -280,7 +280,7 @@ namespace boofcv {
         }
 
         void setNumberOfBands( uint32_t desired ) {
-            T* new_bands;
+            T** new_bands;
             if( desired > this->num_bands ) {
                 new_bands = new T*[desired];
                 for( uint32_t i = 0; i < this->num_bands; i++ ) {
-- 
2.43.0


From 02324c500532695c9baab2cc09a24bf61b6db887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:11 +0000
Subject: [PATCH 10/37] fix: Planar::at() and Planar::setTo() did not compile
 when used

---
 boofcpp/src/boofcv/image_types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 83dcb4c..2dd2b04 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -305,7 +305,7 @@ namespace boofcv {
             this->num_bands = desired;
         }
 
-        T& at( uint32_t x , uint32_t y , uint32_t band ) const {
+        typename T::pixel_type& at( uint32_t x , uint32_t y , uint32_t band ) const {
             if( band >= this->num_bands )
                 throw invalid_argument("Band out of range");
 
@@ -320,7 +320,7 @@ namespace boofcv {
             }
             setNumberOfBands(src.num_bands);
             for( uint32_t i = 0; i < this->num_bands; i++ ) {
-                this->bands[i]->setTo(src.bands[i]);
+                this->bands[i]->copy(*src.bands[i]);
             }
         }
 
-- 
2.43.0


From e371e5cf2c1ee4bb2862c0b8a45fd78ce6cfecaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:11 +0000
Subject: [PATCH 11/37] fix: copied Planar images shared (and freed twice) the
 bands of the original

---
 boofcpp/src/boofcv/image_types.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 2dd2b04..8ee2c20 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -255,6 +255,16 @@ namespace boofcv {
         Planar() : Planar(0,0,0) {
         }
 
+        Planar( const Planar<T>& other ) : Planar(0,0,0) {
+            this->setTo(other);
+        }
+
+        Planar<T>& operator=(const Planar<T>& other) {
+            if( this != &other )
+                this->setTo(other);
+            return *this;
+        }
+
         ~Planar() {
             this->width = 0;
             this->height = 0;
-- 
2.43.0


From 27ce14cb0a605c8ecaa23fd545a1a90c6db87490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:11 +0000
Subject: [PATCH 12/37] fix: GrowArray filled elements larger than a byte with
 the wrong value

---
 boofcpp/src/boofcv/base_types.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/boofcpp/src/boofcv/base_types.h b/boofcpp/src/boofcv/base_types.h
index 76c5965..5c1eb33 100644
--- a/boofcpp/src/boofcv/base_types.h
+++ b/boofcpp/src/boofcv/base_types.h
@@ -127,7 +127,9 @@ namespace boofcv {
                 delete []this->data;
                 this->data = new T[new_size];
                 this->array_length = new_size;
-                memset(data,default_value,new_size);
+                for( uint32_t i = 0; i < new_size; i++ ) {
+                    this->data[i] = default_value;
+                }
             }
             this->size = 0;
         }
@@ -143,7 +145,9 @@ namespace boofcv {
             if( new_size > array_length ) {
                 auto *tmp = new T[new_size];
                 memmove(tmp,this->data,sizeof(T)*this->size);
-                memset(&tmp[this->size],default_value,sizeof(T)*(new_size-this->size));
+                for( uint32_t i = this->size; i < new_size; i++ ) {
+                    tmp[i] = default_value;
+                }
                 delete []this->data;
                 this->data = tmp;
                 this->array_length = new_size;
@@ -152,7 +156,9 @@ namespace boofcv {
         }
 
         void fill( T value ) {
-            std::memset(this->data,value,this->size*sizeof(T));
+            for( uint32_t i = 0; i < this->size; i++ ) {
+                this->data[i] = value;
+            }
         }
 
         T& at( uint32_t index ) const {
-- 
2.43.0


From 7f6cbab76085f2fe3334343f0ac277c71c54697f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:11 +0000
Subject: [PATCH 13/37] fix: copy constructed GrowArray shared (and freed
 twice) the array of the original

---
 boofcpp/src/boofcv/base_types.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/boofcpp/src/boofcv/base_types.h b/boofcpp/src/boofcv/base_types.h
index 5c1eb33..80b2971 100644
--- a/boofcpp/src/boofcv/base_types.h
+++ b/boofcpp/src/boofcv/base_types.h
@@ -97,6 +97,10 @@ namespace boofcv {
 
         }
 
+        GrowArray( const GrowArray<T>& other ) : GrowArray((uint32_t)0) {
+            *this = other;
+        }
+
         GrowArray(std::initializer_list<T> l ){
             this->size = this->array_length = (uint32_t)l.size();
             this->can_resize = true;
-- 
2.43.0


From 63411c5e23e198c3af03e95f0d3ee0dda9245080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:07 +0000
Subject: [PATCH 14/37] fix: ImageStatistics min() and max() ignored the offset
 and stride of sub-images

---
 boofcpp/src/boofcv/image_statistics.h | 28 +++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/boofcpp/src/boofcv/image_statistics.h b/boofcpp/src/boofcv/image_statistics.h
index 81f08ba..9e7744d 100644
--- a/boofcpp/src/boofcv/image_statistics.h
+++ b/boofcpp/src/boofcv/image_statistics.h
@@ -12,12 +12,14 @@ namespace boofcv {
         static T min( const Gray<T>& input) {
             T min_value = std::numeric_limits<T>::max();
 
-            const T* ptr = input.data;
-            const T* end = &ptr[input.total_pixels()];
-            while( ptr != end ) {
-                const T& v = *ptr++;
-                if( v < min_value ) {
-                    min_value = v;
+            for( uint32_t y = 0; y < input.height; y++ ) {
+                const T* ptr = &input.data[input.offset + y*input.stride];
+                const T* end = &ptr[input.width];
+                while( ptr != end ) {
+                    const T& v = *ptr++;
+                    if( v < min_value ) {
+                        min_value = v;
+                    }
                 }
             }
 
@@ -28,12 +30,14 @@ namespace boofcv {
         static T max( const Gray<T>& input) {
             T max_value = std::numeric_limits<T>::min();
 
-            const T* ptr = input.data;
-            const T* end = &ptr[input.total_pixels()];
-            while( ptr != end ) {
-                const T& v = *ptr++;
-                if( v > max_value ) {
-                    max_value = v;
+            for( uint32_t y = 0; y < input.height; y++ ) {
+                const T* ptr = &input.data[input.offset + y*input.stride];
+                const T* end = &ptr[input.width];
+                while( ptr != end ) {
+                    const T& v = *ptr++;
+                    if( v > max_value ) {
+                        max_value = v;
+                    }
                 }
             }
 
-- 
2.43.0


From cab86ac40d6d1c24b3293cb2228e718c6b770ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:07 +0000
Subject: [PATCH 15/37] fix: ImageStatistics::max() was wrong for images with
 only negative floating point values

---
 boofcpp/src/boofcv/image_statistics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_statistics.h b/boofcpp/src/boofcv/image_statistics.h
index 9e7744d..59686c3 100644
--- a/boofcpp/src/boofcv/image_statistics.h
+++ b/boofcpp/src/boofcv/image_statistics.h
@@ -28,7 +28,7 @@ namespace boofcv {
 
         template<class T>
         static T max( const Gray<T>& input) {
-            T max_value = std::numeric_limits<T>::min();
+            T max_value = std::numeric_limits<T>::lowest();
 
             for( uint32_t y = 0; y < input.height; y++ ) {
                 const T* ptr = &input.data[input.offset + y*input.stride];
-- 
2.43.0


From 3bf9b1e3df6c418bf5ba2d78146d15f9b5e36ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:07 +0000
Subject: [PATCH 16/37] fix: ImageStatistics::mean() divided negative sums as
 unsigned integers

---
 boofcpp/src/boofcv/image_statistics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_statistics.h b/boofcpp/src/boofcv/image_statistics.h
index 59686c3..79de975 100644
--- a/boofcpp/src/boofcv/image_statistics.h
+++ b/boofcpp/src/boofcv/image_statistics.h
@@ -60,7 +60,7 @@ namespace boofcv {
         template<class T>
         static T mean( const Gray<T>& input) {
             typename TypeInfo<T>::sum_type a = sum(input);
-            return static_cast<T>(a / (input.width * input.height));
+            return static_cast<T>(a / static_cast<typename TypeInfo<T>::sum_type>(input.width * input.height));
         }
 
         template<class T>
-- 
2.43.0


From a09958aa7db7e435c0e626a49ed80cf8d2eac386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:07 +0000
Subject: [PATCH 17/37] fix: convert_average() divided negative sums as
 unsigned integers

---
 boofcpp/src/boofcv/image_convert.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_convert.h b/boofcpp/src/boofcv/image_convert.h
index 8e7439e..47025e3 100644
--- a/boofcpp/src/boofcv/image_convert.h
+++ b/boofcpp/src/boofcv/image_convert.h
@@ -32,7 +32,7 @@ namespace boofcv {
                     sum += *input_ptr++;
                 }
 
-                *output_ptr++ = static_cast<E>(sum/input.num_bands);
+                *output_ptr++ = static_cast<E>(sum/static_cast<sum_type>(input.num_bands));
             }
         }
     }
-- 
2.43.0


From b2996de5c3d201dab2f972bcf067b43b398b60a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:07 +0000
Subject: [PATCH 18/37] fix: fill() of an Interleaved sub-image wrote outside
 of the sub-image

---
 boofcpp/src/boofcv/image_misc_ops.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/boofcpp/src/boofcv/image_misc_ops.h b/boofcpp/src/boofcv/image_misc_ops.h
index 5927518..1194786 100644
--- a/boofcpp/src/boofcv/image_misc_ops.h
+++ b/boofcpp/src/boofcv/image_misc_ops.h
@@ -60,10 +60,12 @@ namespace boofcv {
 
         template<class E>
         static void fill( Interleaved<E>& image , E value ) {
-            E* ptr = image.data;
-            E* end = &ptr[image.total_pixels()*image.num_bands];
-            while( ptr != end ) {
-                *ptr++ = value;
+            for( uint32_t y = 0; y < image.height; y++ ) {
+                E* ptr = &image.data[image.offset + y*image.stride];
+                E* end = &ptr[image.width*image.num_bands];
+                while( ptr != end ) {
+                    *ptr++ = value;
+                }
             }
         }
 
-- 
2.43.0


From 891f1498de7da33b748c7dcfc41eb0c7b81c7360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:07 +0000
Subject: [PATCH 19/37] fix: fill_uniform() of a sub-image wrote outside of the
 sub-image

---
 boofcpp/src/boofcv/image_misc_ops.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/boofcpp/src/boofcv/image_misc_ops.h b/boofcpp/src/boofcv/image_misc_ops.h
index 1194786..e2cdf23 100644
--- a/boofcpp/src/boofcv/image_misc_ops.h
+++ b/boofcpp/src/boofcv/image_misc_ops.h
@@ -82,10 +82,12 @@ namespace boofcv {
 
             std::uniform_int_distribution<E> dis(min_value, max_value-1);
 
-            E* ptr = image.data;
-            E* end = &ptr[image.total_pixels()];
-            while( ptr != end ) {
-                *ptr++ = dis(rng);
+            for( uint32_t y = 0; y < image.height; y++ ) {
+                E* ptr = &image.data[image.offset + y*image.stride];
+                E* end = &ptr[image.width];
+                while( ptr != end ) {
+                    *ptr++ = dis(rng);
+                }
             }
         }
 
@@ -93,10 +95,12 @@ namespace boofcv {
         static void fill_uniform( Gray<E>& image , E min_value , E max_value , RNG& rng, typename std::enable_if<std::is_floating_point<E>::value >::type* = 0) {
             std::uniform_real_distribution<E> dis(min_value, max_value);
 
-            E* ptr = image.data;
-            E* end = &ptr[image.total_pixels()];
-            while( ptr != end ) {
-                *ptr++ = dis(rng);
+            for( uint32_t y = 0; y < image.height; y++ ) {
+                E* ptr = &image.data[image.offset + y*image.stride];
+                E* end = &ptr[image.width];
+                while( ptr != end ) {
+                    *ptr++ = dis(rng);
+                }
             }
         }
     };
-- 
2.43.0


From a43cae7f7de1dce8950aff0ffdd6f94293fd2e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:07 +0000
Subject: [PATCH 20/37] fix: reflected and wrapped borders read outside of the
 image when far from it

---
 boofcpp/src/boofcv/image_border.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/boofcpp/src/boofcv/image_border.h b/boofcpp/src/boofcv/image_border.h
index ffc2a20..9a10fc9 100644
--- a/boofcpp/src/boofcv/image_border.h
+++ b/boofcpp/src/boofcv/image_border.h
@@ -98,10 +98,17 @@ namespace boofcv {
     class ImageBorderReflect : public ImageBorderIndex<E> {
     public:
         void adjust( int32_t& x , const uint32_t& max_value ) const override {
+            if( max_value == 1 ) {
+                x = 0;
+                return;
+            }
+            // it can be reflected multiple times if the image is small
+            const int32_t period = 2*(static_cast<int32_t>(max_value)-1);
+            x %= period;
             if( x < 0 )
                 x = -x;
-            else if( x >= max_value)
-                x = max_value-2-(x-max_value);
+            if( x >= max_value)
+                x = period-x;
         }
     };
 
@@ -112,10 +119,10 @@ namespace boofcv {
     class ImageBorderWrap : public ImageBorderIndex<E> {
     public:
         void adjust( int32_t& x , const uint32_t& max_value ) const override {
+            // it can wrap around multiple times if the image is small
+            x %= static_cast<int32_t>(max_value);
             if( x < 0 )
-                x = max_value+x;
-            else if( x >= max_value)
-                x = x-max_value;
+                x += max_value;
         }
     };
 
-- 
2.43.0


From 706426d2db98cb3174d277b42adfcc6ec2dc80eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:49 +0000
Subject: [PATCH 21/37] fix: fill_uniform() of a floating point image could
 return the exclusive upper bound

---
 boofcpp/src/boofcv/image_misc_ops.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_misc_ops.h b/boofcpp/src/boofcv/image_misc_ops.h
index e2cdf23..05f4292 100644
--- a/boofcpp/src/boofcv/image_misc_ops.h
+++ b/boofcpp/src/boofcv/image_misc_ops.h
@@ -1,6 +1,7 @@
 #ifndef BOOFCPP_IMAGE_MISC_OPS_H
 #define BOOFCPP_IMAGE_MISC_OPS_H
 
+#include <cmath>
 #include <random>
 #include "image_types.h"
 
@@ -99,7 +100,9 @@ namespace boofcv {
                 E* ptr = &image.data[image.offset + y*image.stride];
                 E* end = &ptr[image.width];
                 while( ptr != end ) {
-                    *ptr++ = dis(rng);
+                    // rounding errors can cause the upper bound, which is exclusive, to be returned
+                    E value = dis(rng);
+                    *ptr++ = value < max_value ? value : std::nextafter(max_value,min_value);
                 }
             }
         }
-- 
2.43.0


From ec797d02b319fc6ee270ba87c5e068ae2f2556a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:20 +0000
Subject: [PATCH 22/37] fix: normalized vertical convolution truncated kernel
 weights to the pixel type

---
 boofcpp/src/boofcv/convolve.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/convolve.h b/boofcpp/src/boofcv/convolve.h
index 0fb81e3..a6e58ca 100644
--- a/boofcpp/src/boofcv/convolve.h
+++ b/boofcpp/src/boofcv/convolve.h
@@ -307,7 +307,7 @@ namespace boofcv {
                     signed_type weight = 0;
 
                     for( int32_t i = startY; i < endY; i++ ) {
-                        E v = kernel.at(i-y+kernel.offset);
+                        signed_type v = kernel.at(i-y+kernel.offset);
                         total += input.unsafe_at(x,i)*v;
                         weight += v;
                     }
-- 
2.43.0


From 6626623671b89e534455af92e322ac390ce9d3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:27 +0000
Subject: [PATCH 23/37] fix: FactoryKernel::normalize() scaled only the first
 row of 2D kernels

---
 boofcpp/src/boofcv/convolve_kernels.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/convolve_kernels.h b/boofcpp/src/boofcv/convolve_kernels.h
index 122045c..4c8f511 100644
--- a/boofcpp/src/boofcv/convolve_kernels.h
+++ b/boofcpp/src/boofcv/convolve_kernels.h
@@ -259,7 +259,7 @@ namespace boofcv {
 
             typename Kernel1D<E>::sum_type sum = kernel.sum();
 
-            for( uint32_t i = 0; i < kernel.width; i++ ) {
+            for( uint32_t i = 0; i < kernel.data.size; i++ ) {
                 kernel.data[i] /= sum;
             }
         }
-- 
2.43.0


From 21765ca9536852fbffc8a36b533cf59fa35ad554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:27 +0000
Subject: [PATCH 24/37] fix: gaussian2D() did not derive the width from sigma
 when width is not positive

---
 boofcpp/src/boofcv/convolve_kernels.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/boofcpp/src/boofcv/convolve_kernels.h b/boofcpp/src/boofcv/convolve_kernels.h
index 4c8f511..10e7a4c 100644
--- a/boofcpp/src/boofcv/convolve_kernels.h
+++ b/boofcpp/src/boofcv/convolve_kernels.h
@@ -333,10 +333,10 @@ namespace boofcv {
                                       typename std::enable_if<std::is_floating_point<E>::value>::type* = 0 )
         {
             Kernel1D<E> seed = gaussian1D<E>(sigma,width);
-            Kernel2D<E> output(width,width/2);
+            Kernel2D<E> output(seed.width,seed.width/2);
 
-            for( int i = 0; i < width; i++ ) {
-                for( int j = 0; j < width; j++ ) {
+            for( uint32_t i = 0; i < seed.width; i++ ) {
+                for( uint32_t j = 0; j < seed.width; j++ ) {
                     output.at(i,j) = seed.at(i)*seed.at(j);
                 }
             }
-- 
2.43.0


From 35051f9dce2b7d65a3acb27b024dea4846e46183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:27 +0000
Subject: [PATCH 25/37] fix: kernels with an offset outside of the kernel were
 not always rejected

---
 boofcpp/src/boofcv/convolve_kernels.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/convolve_kernels.h b/boofcpp/src/boofcv/convolve_kernels.h
index 10e7a4c..8692c93 100644
--- a/boofcpp/src/boofcv/convolve_kernels.h
+++ b/boofcpp/src/boofcv/convolve_kernels.h
@@ -35,12 +35,17 @@ namespace boofcv {
         }
 
         KernelBase( uint32_t width , uint32_t offset) {
-            if( offset >= width )
-                throw std::invalid_argument("The offset must be inside the kernel's bounds");
+            checkOffset(width,offset);
             this->width = width;
             this->offset = offset;
         }
 
+        /** The origin must be inside the kernel */
+        static void checkOffset( uint32_t width , uint32_t offset ) {
+            if( offset >= width )
+                throw std::invalid_argument("The offset must be inside the kernel's bounds");
+        }
+
         virtual void reshape( uint32_t width , uint32_t offset ) = 0;
 
         uint32_t radius() const {
@@ -124,6 +129,7 @@ namespace boofcv {
         }
 
         void reshape( uint32_t width , uint32_t offset ) override {
+            this->checkOffset(width,offset);
             this->width = width;
             this->offset = offset;
             this->data.resize(width);
@@ -168,6 +174,7 @@ namespace boofcv {
         Kernel2D(uint32_t offset, std::initializer_list<std::initializer_list<E>> l ) {
             this->width = static_cast<uint32_t >(l.size());
             this->offset = offset;
+            this->checkOffset(this->width,offset);
 
             this->data.resize(this->width*this->width);
 
@@ -186,6 +193,7 @@ namespace boofcv {
         }
 
         void reshape( uint32_t width , uint32_t offset ) override {
+            this->checkOffset(width,offset);
             this->width = width;
             this->offset = offset;
             this->data.resize(width*width);
-- 
2.43.0


From b024259ff54bfd2832f149ebbeed97f635f241c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:27 +0000
Subject: [PATCH 26/37] fix: fill_uniform() of a floating point kernel could
 return the exclusive upper bound

---
 boofcpp/src/boofcv/convolve_kernels.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/convolve_kernels.h b/boofcpp/src/boofcv/convolve_kernels.h
index 8692c93..1e2dd69 100644
--- a/boofcpp/src/boofcv/convolve_kernels.h
+++ b/boofcpp/src/boofcv/convolve_kernels.h
@@ -1,6 +1,8 @@
 #ifndef BOOFCPP_CONVOLVE_KERNELS_H
 #define BOOFCPP_CONVOLVE_KERNELS_H
 
+#include <algorithm>
+#include <cmath>
 #include <cstdint>
 #include <stdexcept>
 #include <cstring>
@@ -455,10 +457,12 @@ namespace boofcv {
         template<class E, class RNG>
         static void fill_uniform( Kernel1D<E>& kernel , E min_value , E max_value , RNG& rng, typename std::enable_if<std::is_floating_point<E>::value >::type* = 0) {
 
+            // rounding errors can cause the upper bound, which is exclusive, to be returned
             std::uniform_real_distribution<E> dis(min_value, max_value);
+            const E largest = std::nextafter(max_value,min_value);
 
             for( uint32_t i = 0; i < kernel.width; i++ ) {
-                kernel.data[i] = dis(rng);
+                kernel.data[i] = std::min<E>(dis(rng),largest);
             }
         }
 
@@ -476,11 +480,13 @@ namespace boofcv {
         template<class E, class RNG>
         static void fill_uniform( Kernel2D<E>& kernel , E min_value , E max_value , RNG& rng, typename std::enable_if<std::is_floating_point<E>::value >::type* = 0) {
 
+            // rounding errors can cause the upper bound, which is exclusive, to be returned
             std::uniform_real_distribution<E> dis(min_value, max_value);
+            const E largest = std::nextafter(max_value,min_value);
 
             uint32_t N = kernel.width*kernel.width;
             for( uint32_t i = 0; i < N; i++ ) {
-                kernel.data[i] = dis(rng);
+                kernel.data[i] = std::min<E>(dis(rng),largest);
             }
         }
     };
-- 
2.43.0


From c89b8de802acf8448d264d959fecb6790b99e7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:58 +0000
Subject: [PATCH 27/37] fix: vertical mean blur chose its inner loop from the
 image's width instead of its height

---
 boofcpp/src/boofcv/image_blur.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_blur.h b/boofcpp/src/boofcv/image_blur.h
index c16709c..3e53c57 100644
--- a/boofcpp/src/boofcv/image_blur.h
+++ b/boofcpp/src/boofcv/image_blur.h
@@ -194,7 +194,7 @@ namespace boofcv {
             typedef typename TypeInfo<E>::signed_type signed_type;
 
             Kernel1D<signed_type> kernel = FactoryKernel::mean1D<signed_type>(radius*2+1);
-            if( kernel.width > input.width ) {
+            if( kernel.width > input.height ) {
                 ConvolveNormalized::vertical(kernel,input,output);
             } else {
                 ConvolveNormalized_JustBorder::vertical(kernel, input ,output );
-- 
2.43.0


From a0c6dc060274c7df1945f8e6ca72fa408d6b8e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:22 +0000
Subject: [PATCH 28/37] fix: ThresholdOps::computeOtsu() returned a histogram
 index instead of a pixel value

---
 boofcpp/src/boofcv/binary_ops.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/binary_ops.h b/boofcpp/src/boofcv/binary_ops.h
index 5ecf40d..f690a4b 100644
--- a/boofcpp/src/boofcv/binary_ops.h
+++ b/boofcpp/src/boofcv/binary_ops.h
@@ -109,7 +109,7 @@ namespace boofcv
          * @return Selected threshold.
          */
         template<class T>
-        static uint32_t computeOtsu( const Gray<T>& input , T min_value , T max_value , bool otsu2=false ) {
+        static T computeOtsu( const Gray<T>& input , T min_value , T max_value , bool otsu2=false ) {
 
             auto range = static_cast<uint32_t>(1+max_value - min_value);
             GrowArray<uint32_t> histogram(range);
@@ -119,7 +119,7 @@ namespace boofcv
             // this should configure so that all the really fancy stuff has been turned off
             ComputeOtsu otsu(otsu2,0,true,1.0);
             otsu.compute(histogram, input.total_pixels());
-            return (uint32_t)otsu.threshold;
+            return static_cast<T>((uint32_t)otsu.threshold + min_value);
         }
 
         /**
-- 
2.43.0


From 8db7731caea95d606ecc9150857927cc7d50830e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:44 +0000
Subject: [PATCH 29/37] fix: erode4() and dilate4() ran outside of images with
 a side of length zero

---
 boofcpp/src/boofcv/binary_ops.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/boofcpp/src/boofcv/binary_ops.cpp b/boofcpp/src/boofcv/binary_ops.cpp
index 87929f8..7dc217b 100644
--- a/boofcpp/src/boofcv/binary_ops.cpp
+++ b/boofcpp/src/boofcv/binary_ops.cpp
@@ -42,6 +42,10 @@ void boofcv::BinaryImageOps::logicOr(const Gray<U8>& inputA , const Gray<U8>& in
 void boofcv::BinaryImageOps::erode4(const Gray<U8>& input, Gray<U8>& output) {
     output.reshape(input.width,input.height);
 
+    // there are no interior pixels
+    if( input.width < 3 || input.height < 3 )
+        return;
+
     const int h = input.height - 1;
     const int w = input.width - 2;
 
@@ -64,6 +68,10 @@ void boofcv::BinaryImageOps::erode4(const Gray<U8>& input, Gray<U8>& output) {
 void boofcv::BinaryImageOps::dilate4(const Gray<U8>& input, Gray<U8>& output) {
     output.reshape(input.width,input.height);
 
+    // there are no interior pixels
+    if( input.width < 3 || input.height < 3 )
+        return;
+
     const int h = input.height - 1;
     const int w = input.width - 2;
 
-- 
2.43.0


From 1ecf5401470d15ee5ffc3fdf341a65d27468e3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:25 +0000
Subject: [PATCH 30/37] fix: block thresholds divided by zero when the block
 size evaluates to zero

---
 boofcpp/src/boofcv/threshold_block_filters.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/boofcpp/src/boofcv/threshold_block_filters.h b/boofcpp/src/boofcv/threshold_block_filters.h
index d3d7655..0708daf 100644
--- a/boofcpp/src/boofcv/threshold_block_filters.h
+++ b/boofcpp/src/boofcv/threshold_block_filters.h
@@ -70,6 +70,9 @@ namespace boofcv
             checkSameShape(input,output);
 
             auto requestedBlockWidth = (uint32_t)this->requestedBlockWidth.computeI( std::min(input.width,input.height));
+            if( requestedBlockWidth == 0 ) {
+                throw invalid_argument("Block size must be more than zero");
+            }
             if( input.width < requestedBlockWidth || input.height < requestedBlockWidth ) {
                 throw invalid_argument("Image is smaller than block size");
             }
-- 
2.43.0


From 1952c24e3a4099e5102e756d28df5db50bfeabee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:25 +0000
Subject: [PATCH 31/37] fix: block min-max threshold was wrong for images with
 only negative floating point values

---
 boofcpp/src/boofcv/threshold_block_filters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/threshold_block_filters.h b/boofcpp/src/boofcv/threshold_block_filters.h
index 0708daf..1328c40 100644
--- a/boofcpp/src/boofcv/threshold_block_filters.h
+++ b/boofcpp/src/boofcv/threshold_block_filters.h
@@ -447,7 +447,7 @@ namespace boofcv
 
             // find the min and max pixel values inside this block region
             E min = std::numeric_limits<E>::max();
-            E max = std::numeric_limits<E>::min();
+            E max = std::numeric_limits<E>::lowest();
 
             for (uint32_t y = blockY0; y <= blockY1; y++) {
                 for (uint32_t x = blockX0; x <= blockX1; x++) {
-- 
2.43.0


From 89e685cced5ced3482725de52504fc74a2980e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:25 +0000
Subject: [PATCH 32/37] fix: a negative minimum spread made every block
 textureless for unsigned images instead of disabling the test

---
 boofcpp/src/boofcv/threshold_block_filters.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/threshold_block_filters.h b/boofcpp/src/boofcv/threshold_block_filters.h
index 1328c40..824e8e1 100644
--- a/boofcpp/src/boofcv/threshold_block_filters.h
+++ b/boofcpp/src/boofcv/threshold_block_filters.h
@@ -462,13 +462,13 @@ namespace boofcv
             }
 
             // apply threshold
-            auto textureThreshold = static_cast<sum_type>(this->minimumSpread);
+            const bool textureless = this->minimumSpread > -1 && max-min <= static_cast<sum_type>(this->minimumSpread);
             for (uint32_t y = y0; y < y1; y++) {
                 E* input_ptr = &input.data[input.offset + y*input.stride + x0];
                 U8* output_ptr = &output.data[output.offset + y*output.stride + x0];
 
                 for (uint32_t i = x1-x0; i ; i-- ) {
-                    if( max-min <= textureThreshold ) {
+                    if( textureless ) {
                         *output_ptr++ = 1;
                         input_ptr++;
                     } else {
-- 
2.43.0


From c930ea101803db8b816db985f6983de13901ebeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:25 +0000
Subject: [PATCH 33/37] fix: block mean threshold divided negative sums as
 unsigned integers

---
 boofcpp/src/boofcv/threshold_block_filters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/threshold_block_filters.h b/boofcpp/src/boofcv/threshold_block_filters.h
index 824e8e1..efdb455 100644
--- a/boofcpp/src/boofcv/threshold_block_filters.h
+++ b/boofcpp/src/boofcv/threshold_block_filters.h
@@ -231,7 +231,7 @@ namespace boofcv
                     sum += this->stats.unsafe_at(x,y,0);
                 }
             }
-            E mean = sum/((blockY1-blockY0+1)*(blockX1-blockX0+1));
+            E mean = sum/static_cast<typename TypeInfo<E>::sum_type>((blockY1-blockY0+1)*(blockX1-blockX0+1));
 
             // apply threshold
             for (uint32_t y = y0; y < y1; y++) {
-- 
2.43.0


From 95d8bdab5668404dc53b8fd95925abbaad46d33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:49 +0000
Subject: [PATCH 34/37] fix: ImageStatistics::mean divided by zero for an image
 without pixels

---
 boofcpp/src/boofcv/image_statistics.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/boofcpp/src/boofcv/image_statistics.h b/boofcpp/src/boofcv/image_statistics.h
index 79de975..1cfd346 100644
--- a/boofcpp/src/boofcv/image_statistics.h
+++ b/boofcpp/src/boofcv/image_statistics.h
@@ -2,6 +2,7 @@
 #define BOOFCPP_IMAGE_STATISTICS_H
 
 #include <limits>
+#include <stdexcept>
 #include "image_types.h"
 #include "base_types.h"
 
@@ -59,6 +60,9 @@ namespace boofcv {
 
         template<class T>
         static T mean( const Gray<T>& input) {
+            if( input.width == 0 || input.height == 0 )
+                throw std::invalid_argument("The mean of an image without pixels is not defined");
+
             typename TypeInfo<T>::sum_type a = sum(input);
             return static_cast<T>(a / static_cast<typename TypeInfo<T>::sum_type>(input.width * input.height));
         }
-- 
2.43.0


From 7672d0c5aaeb57cae243d9109ee79bc19dda9269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:38 +0000
Subject: [PATCH 35/37] fix: JNI threshold filters kept Java arrays and lost
 the failure when the native operation threw

---
 boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp       | 83 ++++++++++++-------
 boofcpp-jni/src/main/cpp/JNIBoofCPP.h         | 22 +++++
 boofcpp-jni/src/main/cpp/NativeBlockMean.cpp  | 24 +++---
 .../src/main/cpp/NativeBlockMinMax.cpp        | 24 +++---
 boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp  | 24 +++---
 .../src/main/cpp/NativeGlobalFixed.cpp        | 24 +++---
 boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp | 24 +++---
 boofcpp-jni/src/main/cpp/NativeLocalMean.cpp  | 24 +++---
 8 files changed, 141 insertions(+), 108 deletions(-)

diff --git a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
index b00988d..ecb4bb9 100644
--- a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
+++ b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
@@ -33,6 +33,9 @@ WrapJGrowQueue_I32::~WrapJGrowQueue_I32() {
 
 void WrapJGrowQueue_I32::criticalGet() {
     this->data = (jint *)env->GetPrimitiveArrayCritical(array_object, 0);
+    if( this->data == nullptr ) {
+        throw std::runtime_error("Failed to access the Java array");
+    }
 }
 
 void WrapJGrowQueue_I32::criticalRelease() {
@@ -91,6 +94,38 @@ void WrapJGrowQueue_I32::resize( uint32_t desired ) {
     }
 }
 
+CriticalArray::CriticalArray( JNIEnv *env, jobject array, jint releaseMode )
+: env(env), array((jarray)array), releaseMode(releaseMode)
+{
+    data = env->GetPrimitiveArrayCritical(this->array, 0);
+    if( data == nullptr )
+        throw std::runtime_error("Failed to access the Java array");
+}
+
+CriticalArray::~CriticalArray() {
+    env->ReleasePrimitiveArrayCritical(array, data, releaseMode);
+}
+
+void throwJavaException( JNIEnv *env ) {
+    // Java already has an exception pending
+    if( env->ExceptionCheck() )
+        return;
+
+    jclass exceptionClass = env->FindClass("java/lang/RuntimeException");
+    if( exceptionClass == nullptr )
+        return;
+
+    try {
+        throw;
+    } catch( const std::exception& e ) {
+        env->ThrowNew(exceptionClass, e.what());
+    } catch( const char* message ) {
+        env->ThrowNew(exceptionClass, message);
+    } catch( ... ) {
+        env->ThrowNew(exceptionClass, "Exception in native code");
+    }
+}
+
 void copy_into_java( JNIEnv *env,
                      const boofcv::PackedSet<boofcv::Point2D<boofcv::S32>>& src ,
                      jobject dst )
@@ -121,12 +156,12 @@ void copy_into_java( JNIEnv *env,
         jobject the_array = env->CallObjectMethod(object_blocks,method_get,(jint)block_idx);
 
         auto array_src = (boofcv::Point2D<boofcv::S32>*)src.blocks[block_idx];
-        auto array_dst = (jint *)env->GetPrimitiveArrayCritical((jarray)the_array, 0);
+        CriticalArray array(env,the_array,0);
+        auto array_dst = (jint *)array.data;
         for( uint32_t j = 0; j < src._size_of_block; j++ ) {
             array_dst[j*2  ] = array_src[j].x;
             array_dst[j*2+1] = array_src[j].y;
         }
-        env->ReleasePrimitiveArrayCritical((jarray)the_array, array_dst, 0);
     }
 
     jclass class_blockindexlength = env->FindClass("boofcv/struct/BlockIndexLength");
@@ -371,18 +406,15 @@ boofcv::Kernel1D<S32>* extractKernel1D_S32( JNIEnv *env, jobject& jkernel ) {
 
     jfieldID fid = env->GetFieldID(objClass, "data", "[I");
     jobject  jarray = env->GetObjectField (jkernel, fid);
-    jint* data = env->GetIntArrayElements((jintArray)jarray, 0);
     jint length = env->GetArrayLength((jintArray)jarray);
 
     // copy the Java array into the kernel
-    auto kernel1D = new boofcv::Kernel1D<S32>((uint32_t)width,(uint32_t)offset);
-    kernel1D->data.set((S32*)data,(uint32_t)length);
-
-    // release java objects
-    env->ReleaseIntArrayElements((jintArray)jarray, data, 0);
+    std::unique_ptr<boofcv::Kernel1D<S32>> kernel1D(new boofcv::Kernel1D<S32>((uint32_t)width,(uint32_t)offset));
+    kernel1D->data.resize((uint32_t)length);
+    env->GetIntArrayRegion((jintArray)jarray, 0, length, (jint*)kernel1D->data.data);
 
     // return the results
-    return kernel1D;
+    return kernel1D.release();
 }
 
 boofcv::Kernel1D<F32>* extractKernel1D_F32( JNIEnv *env, jobject& jkernel ) {
@@ -392,18 +424,15 @@ boofcv::Kernel1D<F32>* extractKernel1D_F32( JNIEnv *env, jobject& jkernel ) {
 
     jfieldID fid = env->GetFieldID(objClass, "data", "[F");
     jobject  jarray = env->GetObjectField (jkernel, fid);
-    jfloat* data = env->GetFloatArrayElements((jfloatArray)jarray, 0);
     jint length = env->GetArrayLength((jfloatArray)jarray);
 
     // copy the Java array into the kernel
-    auto kernel1D = new boofcv::Kernel1D<F32>((uint32_t)width,(uint32_t)offset);
-    kernel1D->data.set((F32*)data,(uint32_t)length);
-
-    // release java objects
-    env->ReleaseFloatArrayElements((jfloatArray)jarray, data, 0);
+    std::unique_ptr<boofcv::Kernel1D<F32>> kernel1D(new boofcv::Kernel1D<F32>((uint32_t)width,(uint32_t)offset));
+    kernel1D->data.resize((uint32_t)length);
+    env->GetFloatArrayRegion((jfloatArray)jarray, 0, length, (jfloat*)kernel1D->data.data);
 
     // return the results
-    return kernel1D;
+    return kernel1D.release();
 }
 
 boofcv::Kernel2D<boofcv::S32>* extractKernel2D_S32( JNIEnv *env, jobject& jkernel ) {
@@ -413,18 +442,15 @@ boofcv::Kernel2D<boofcv::S32>* extractKernel2D_S32( JNIEnv *env, jobject& jkerne
 
     jfieldID fid = env->GetFieldID(objClass, "data", "[I");
     jobject  jarray = env->GetObjectField (jkernel, fid);
-    jint* data = env->GetIntArrayElements((jintArray)jarray, 0);
     jint length = env->GetArrayLength((jintArray)jarray);
 
     // copy the Java array into the kernel
-    auto kernel2D = new boofcv::Kernel2D<S32>((uint32_t)width,(uint32_t)offset);
-    kernel2D->data.set((S32*)data,(uint32_t)length);
-
-    // release java objects
-    env->ReleaseIntArrayElements((jintArray)jarray, data, 0);
+    std::unique_ptr<boofcv::Kernel2D<S32>> kernel2D(new boofcv::Kernel2D<S32>((uint32_t)width,(uint32_t)offset));
+    kernel2D->data.resize((uint32_t)length);
+    env->GetIntArrayRegion((jintArray)jarray, 0, length, (jint*)kernel2D->data.data);
 
     // return the results
-    return kernel2D;
+    return kernel2D.release();
 }
 
 boofcv::Kernel2D<boofcv::F32>* extractKernel2D_F32( JNIEnv *env, jobject& jkernel ) {
@@ -434,16 +460,13 @@ boofcv::Kernel2D<boofcv::F32>* extractKernel2D_F32( JNIEnv *env, jobject& jkerne
 
     jfieldID fid = env->GetFieldID(objClass, "data", "[F");
     jobject  jarray = env->GetObjectField (jkernel, fid);
-    jfloat* data = env->GetFloatArrayElements((jfloatArray)jarray, 0);
     jint length = env->GetArrayLength((jfloatArray)jarray);
 
     // copy the Java array into the kernel
-    auto kernel2D = new boofcv::Kernel2D<F32>((uint32_t)width,(uint32_t)offset);
-    kernel2D->data.set((F32*)data,(uint32_t)length);
-
-    // release java objects
-    env->ReleaseFloatArrayElements((jfloatArray)jarray, data, 0);
+    std::unique_ptr<boofcv::Kernel2D<F32>> kernel2D(new boofcv::Kernel2D<F32>((uint32_t)width,(uint32_t)offset));
+    kernel2D->data.resize((uint32_t)length);
+    env->GetFloatArrayRegion((jfloatArray)jarray, 0, length, (jfloat*)kernel2D->data.data);
 
     // return the results
-    return kernel2D;
+    return kernel2D.release();
 }
diff --git a/boofcpp-jni/src/main/cpp/JNIBoofCPP.h b/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
index c9a72a8..4dc7e02 100644
--- a/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
+++ b/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
@@ -2,6 +2,7 @@
 #define BOOFCPP_JNIBOOFCPP_H
 
 #include <jni.h>
+#include <memory>
 #include <config_types.h>
 #include "image_types.h"
 #include "base_types.h"
@@ -40,6 +41,27 @@ public:
     void resize( uint32_t desired );
 };
 
+/**
+ * Access to a Java primitive array. No other JNI function can be called while it exists. The array is released
+ * when this goes out of scope, also when that's because of an exception.
+ */
+class CriticalArray {
+public:
+    JNIEnv *env;
+    jarray array;
+    jint releaseMode;
+    void *data;
+
+    CriticalArray( JNIEnv *env, jobject array, jint releaseMode );
+    ~CriticalArray();
+
+    CriticalArray( const CriticalArray& ) = delete;
+    CriticalArray& operator=( const CriticalArray& ) = delete;
+};
+
+// C++ exceptions are not allowed to leave native code. Call it inside a catch block to hand the exception over to Java
+void throwJavaException( JNIEnv *env );
+
 struct JImageInfo {
     jobject jdata;
 
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp b/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
index 18ede7d..38215ff 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
@@ -54,30 +54,28 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeprocess
     if( env->ExceptionCheck() )
             return;
 
-    ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
-
     try {
+        ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
+
 //        printf("   alg.threshold %d\n",alg->threshold);
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            input.image.data = (U8*)inputArray.data;
+            CriticalArray outputArray(env,output.info.jdata,0);
+            output.image.data = (U8*)outputArray.data;
             ((ThresholdBlockMean<U8>*)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
-            input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            input.image.data = (F32*)inputArray.data;
+            CriticalArray outputArray(env,output.info.jdata,0);
+            output.image.data = (U8*)outputArray.data;
             ((ThresholdBlockMean<F32> *)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
-        printf("Exception!!\n");
-        // TODO do something here
+        throwJavaException(env);
     }
-
-    // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp b/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
index 35fe579..ae2ceb4 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
@@ -55,30 +55,28 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeproces
     if( env->ExceptionCheck() )
             return;
 
-    ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
-
     try {
+        ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
+
 //        printf("   alg.threshold %d\n",alg->threshold);
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            input.image.data = (U8*)inputArray.data;
+            CriticalArray outputArray(env,output.info.jdata,0);
+            output.image.data = (U8*)outputArray.data;
             ((ThresholdBlockMinMax<U8>*)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
-            input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            input.image.data = (F32*)inputArray.data;
+            CriticalArray outputArray(env,output.info.jdata,0);
+            output.image.data = (U8*)outputArray.data;
             ((ThresholdBlockMinMax<F32> *)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
-        printf("Exception!!\n");
-        // TODO do something here
+        throwJavaException(env);
     }
-
-    // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp b/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
index 2652302..ab796c7 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
@@ -55,29 +55,27 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeprocess
     if( env->ExceptionCheck() )
             return;
 
-    ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
-
     try {
+        ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
+
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            input.image.data = (U8*)inputArray.data;
+            CriticalArray outputArray(env,output.info.jdata,0);
+            output.image.data = (U8*)outputArray.data;
             ((ThresholdBlockOtsu<U8>*)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
-            input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            input.image.data = (F32*)inputArray.data;
+            CriticalArray outputArray(env,output.info.jdata,0);
+            output.image.data = (U8*)outputArray.data;
             ((ThresholdBlockOtsu<F32> *)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
-        printf("Exception!!\n");
-        // TODO do something here
+        throwJavaException(env);
     }
-
-    // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp b/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
index 8baa758..109a83a 100644
--- a/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
@@ -53,30 +53,28 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeproces
     if( env->ExceptionCheck() )
             return;
 
-    ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
-
     try {
+        ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
+
 //        printf("   alg.threshold %d\n",alg->threshold);
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            input.image.data = (U8*)inputArray.data;
+            CriticalArray outputArray(env,output.info.jdata,0);
+            output.image.data = (U8*)outputArray.data;
             ((GlobalFixedBinaryFilter<U8>*)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
-            input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            input.image.data = (F32*)inputArray.data;
+            CriticalArray outputArray(env,output.info.jdata,0);
+            output.image.data = (U8*)outputArray.data;
             ((GlobalFixedBinaryFilter<F32> *)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
-        printf("Exception!!\n");
-        // TODO do something here
+        throwJavaException(env);
     }
-
-    // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp b/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
index 1d62507..5109b2c 100644
--- a/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
@@ -50,30 +50,28 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeprocess
     if( env->ExceptionCheck() )
             return;
 
-    ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
-
     try {
+        ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
+
 //        printf("   alg.threshold %d\n",alg->threshold);
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            input.image.data = (U8*)inputArray.data;
+            CriticalArray outputArray(env,output.info.jdata,0);
+            output.image.data = (U8*)outputArray.data;
             ((GlobalOtsuBinaryFilter<U8>*)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
-            input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            input.image.data = (F32*)inputArray.data;
+            CriticalArray outputArray(env,output.info.jdata,0);
+            output.image.data = (U8*)outputArray.data;
             ((GlobalOtsuBinaryFilter<F32> *)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
-        printf("Exception!!\n");
-        // TODO do something here
+        throwJavaException(env);
     }
-
-    // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp b/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
index 3ba111b..4adc295 100644
--- a/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
@@ -54,30 +54,28 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeprocess
     if( env->ExceptionCheck() )
             return;
 
-    ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
-
     try {
+        ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
+
 //        printf("   alg.threshold %d\n",alg->threshold);
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            input.image.data = (U8*)inputArray.data;
+            CriticalArray outputArray(env,output.info.jdata,0);
+            output.image.data = (U8*)outputArray.data;
             ((InputToBinary<Gray<U8>>*)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
-            input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            input.image.data = (F32*)inputArray.data;
+            CriticalArray outputArray(env,output.info.jdata,0);
+            output.image.data = (U8*)outputArray.data;
             ((InputToBinary<Gray<F32>> *)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
-        printf("Exception!!\n");
-        // TODO do something here
+        throwJavaException(env);
     }
-
-    // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
-- 
2.43.0


From 62aa30124af89500c1db16ef82a35646a926d7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:38 +0000
Subject: [PATCH 36/37] fix: JNI blur and convolution let C++ exceptions leave
 native code, keeping Java arrays and kernels

---
 .../src/main/cpp/NativeImageBlurOps.cpp       |  63 +++++-----
 .../src/main/cpp/NativeImageConvolve.cpp      | 115 ++++++++----------
 .../cpp/NativeImageConvolveNormalized.cpp     |  59 +++++----
 3 files changed, 114 insertions(+), 123 deletions(-)

diff --git a/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp b/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp
index 78bb88c..a6595b1 100644
--- a/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp
@@ -6,7 +6,8 @@ using namespace boofcv;
 
 extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageBlurOps_nativeMean(
-    JNIEnv *env, jobject obj, jobject jinput, jobject joutput, jint radius, jobject jstorage) {
+    JNIEnv *env, jobject obj, jobject jinput, jobject joutput, jint radius, jobject jstorage)
+try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -17,34 +18,35 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageBlurOps_nativeMean(
         ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
         ImageAndInfo<Gray<U8>,JImageInfo> storage = wrapCriticalGrayU8(env,jstorage);
 
-        input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-        output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-        storage.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)storage.info.jdata, 0);
+        CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+        input.image.data = (U8*)inputArray.data;
+        CriticalArray outputArray(env,output.info.jdata,0);
+        output.image.data = (U8*)outputArray.data;
+        CriticalArray storageArray(env,storage.info.jdata,JNI_ABORT);
+        storage.image.data = (U8*)storageArray.data;
 
         BlurImageOps::mean(input.image,output.image,(uint32_t)radius,storage.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        env->ReleasePrimitiveArrayCritical((jarray)storage.info.jdata, storage.image.data, JNI_ABORT);
     } else {
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
         ImageAndInfo<Gray<F32>,JImageInfo> storage = wrapCriticalGrayF32(env,jstorage);
 
-        input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-        output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-        storage.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)storage.info.jdata, 0);
+        CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+        input.image.data = (F32*)inputArray.data;
+        CriticalArray outputArray(env,output.info.jdata,0);
+        output.image.data = (F32*)outputArray.data;
+        CriticalArray storageArray(env,storage.info.jdata,JNI_ABORT);
+        storage.image.data = (F32*)storageArray.data;
 
         BlurImageOps::mean(input.image,output.image,(uint32_t)radius,storage.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        env->ReleasePrimitiveArrayCritical((jarray)storage.info.jdata, storage.image.data, JNI_ABORT);
     }
+} catch( ... ) {
+    throwJavaException(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageBlurOps_nativeGaussian(
-        JNIEnv *env, jobject obj, jobject jinput, jobject joutput, jdouble sigma, jint radius, jobject jstorage) {
+        JNIEnv *env, jobject obj, jobject jinput, jobject joutput, jdouble sigma, jint radius, jobject jstorage)
+try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -57,30 +59,29 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageBlurOps_nativeGaussi
         ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
         ImageAndInfo<Gray<U8>,JImageInfo> storage = wrapCriticalGrayU8(env,jstorage);
 
-        input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-        output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-        storage.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)storage.info.jdata, 0);
+        CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+        input.image.data = (U8*)inputArray.data;
+        CriticalArray outputArray(env,output.info.jdata,0);
+        output.image.data = (U8*)outputArray.data;
+        CriticalArray storageArray(env,storage.info.jdata,JNI_ABORT);
+        storage.image.data = (U8*)storageArray.data;
 
         BlurImageOps::gaussian(input.image,output.image,(double)sigma,(int32_t)width,storage.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        env->ReleasePrimitiveArrayCritical((jarray)storage.info.jdata, storage.image.data, JNI_ABORT);
     } else {
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
         ImageAndInfo<Gray<F32>,JImageInfo> storage = wrapCriticalGrayF32(env,jstorage);
 
-        input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-        output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-        storage.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)storage.info.jdata, 0);
+        CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+        input.image.data = (F32*)inputArray.data;
+        CriticalArray outputArray(env,output.info.jdata,0);
+        output.image.data = (F32*)outputArray.data;
+        CriticalArray storageArray(env,storage.info.jdata,JNI_ABORT);
+        storage.image.data = (F32*)storageArray.data;
 
         BlurImageOps::gaussian(input.image,output.image,(double)sigma,(int32_t)width,storage.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        env->ReleasePrimitiveArrayCritical((jarray)storage.info.jdata, storage.image.data, JNI_ABORT);
     }
+} catch( ... ) {
+    throwJavaException(env);
 }
-
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp b/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp
index b74cfd7..20ee8bb 100644
--- a/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp
@@ -28,7 +28,8 @@ BorderType borderJavaToCpp( int type ) {
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeHorizontal(
-    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput, jint jborderType ) {
+    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput, jint jborderType )
+try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -41,7 +42,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeHoriz
     if( isInteger ) {
         if( inputBits != 8 )
             throw std::runtime_error("Can only handle 8-bit input integer images currently");
-        boofcv::Kernel1D<S32>* kernel = extractKernel1D_S32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<S32>> kernel(extractKernel1D_S32(env,jkernel));
         std::shared_ptr<ImageBorder<U8>> border = FactoryImageBorder::create_SB<U8>(borderType);
 
         ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
@@ -49,8 +50,10 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeHoriz
 
         if( outputBits == 16 ) {
             ImageAndInfo<Gray<S16>,JImageInfo> output = wrapCriticalGrayS16(env,joutput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (S16*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            input.image.data = (U8*)inputArray.data;
+            CriticalArray outputArray(env,output.info.jdata,0);
+            output.image.data = (S16*)outputArray.data;
 
             // Trying to figure out why this runs slower than a C++ application
             // JNI overhead appears to be negligible based on the printed times below
@@ -59,45 +62,41 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeHoriz
             ConvolveImage::horizontal(*kernel, *border.get(),output.image);
 //            t = clock() - t;
 //            printf("horizontal time %f kernel %d\n",(float)1000*t/CLOCKS_PER_SEC,kernel->width);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else if( outputBits == 32 ) {
             ImageAndInfo<Gray<S32>,JImageInfo> output = wrapCriticalGrayS32(env,joutput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (S32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            input.image.data = (U8*)inputArray.data;
+            CriticalArray outputArray(env,output.info.jdata,0);
+            output.image.data = (S32*)outputArray.data;
 
             ConvolveImage::horizontal(*kernel, *border.get(),output.image);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else {
             throw std::runtime_error("Can only handle 16-bit or 32-bit integer output images currently");
         }
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        delete kernel;
     } else {
         if( inputBits != 32 || outputBits != 32 ) {
             throw std::runtime_error("Can only handle 32-bit floats currently");
         }
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
-        boofcv::Kernel1D<F32>* kernel = extractKernel1D_F32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<F32>> kernel(extractKernel1D_F32(env,jkernel));
         std::shared_ptr<ImageBorder<F32>> border = FactoryImageBorder::create_SB<F32>(borderType);
         border.get()->setImage(input.image);
 
-        input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-        output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+        input.image.data = (F32*)inputArray.data;
+        CriticalArray outputArray(env,output.info.jdata,0);
+        output.image.data = (F32*)outputArray.data;
 
         ConvolveImage::horizontal(*kernel, *border.get(),output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     }
+} catch( ... ) {
+    throwJavaException(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeVertical(
-    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput, jint jborderType ) {
+    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput, jint jborderType )
+try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -110,7 +109,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeVerti
     if( isInteger ) {
         if( inputBits != 8 )
             throw std::runtime_error("Can only handle 8-bit input integer images currently");
-        boofcv::Kernel1D<S32>* kernel = extractKernel1D_S32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<S32>> kernel(extractKernel1D_S32(env,jkernel));
         std::shared_ptr<ImageBorder<U8>> border = FactoryImageBorder::create_SB<U8>(borderType);
 
         ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
@@ -118,49 +117,47 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeVerti
 
         if( outputBits == 16 ) {
             ImageAndInfo<Gray<S16>,JImageInfo> output = wrapCriticalGrayS16(env,joutput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (S16*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            input.image.data = (U8*)inputArray.data;
+            CriticalArray outputArray(env,output.info.jdata,0);
+            output.image.data = (S16*)outputArray.data;
 
             ConvolveImage::vertical(*kernel, *border.get(),output.image);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else if( outputBits == 32 ) {
             ImageAndInfo<Gray<S32>,JImageInfo> output = wrapCriticalGrayS32(env,joutput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (S32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            input.image.data = (U8*)inputArray.data;
+            CriticalArray outputArray(env,output.info.jdata,0);
+            output.image.data = (S32*)outputArray.data;
 
             ConvolveImage::vertical(*kernel, *border.get(),output.image);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else {
             throw std::runtime_error("Can only handle 16-bit or 32-bit integer output currently");
         }
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        delete kernel;
     } else {
         if( inputBits != 32 || outputBits != 32 ) {
             throw std::runtime_error("Can only handle 32-bit floats currently");
         }
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
-        boofcv::Kernel1D<F32>* kernel = extractKernel1D_F32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<F32>> kernel(extractKernel1D_F32(env,jkernel));
         std::shared_ptr<ImageBorder<F32>> border = FactoryImageBorder::create_SB<F32>(borderType);
         border.get()->setImage(input.image);
 
-        input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-        output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+        input.image.data = (F32*)inputArray.data;
+        CriticalArray outputArray(env,output.info.jdata,0);
+        output.image.data = (F32*)outputArray.data;
 
         ConvolveImage::vertical(*kernel, *border.get(),output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     }
+} catch( ... ) {
+    throwJavaException(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeConvolve(
-    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput, jint jborderType ) {
+    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput, jint jborderType )
+try {
 
    jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -173,7 +170,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeConvo
     if( isInteger ) {
         if( inputBits != 8 )
             throw std::runtime_error("Can only handle 8-bit input integer images currently");
-        boofcv::Kernel2D<S32>* kernel = extractKernel2D_S32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel2D<S32>> kernel(extractKernel2D_S32(env,jkernel));
         std::shared_ptr<ImageBorder<U8>> border = FactoryImageBorder::create_SB<U8>(borderType);
 
         ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
@@ -181,46 +178,42 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeConvo
 
         if( outputBits == 16 ) {
             ImageAndInfo<Gray<S16>,JImageInfo> output = wrapCriticalGrayS16(env,joutput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (S16*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            input.image.data = (U8*)inputArray.data;
+            CriticalArray outputArray(env,output.info.jdata,0);
+            output.image.data = (S16*)outputArray.data;
 
             ConvolveImage::convolve(*kernel, *border.get(),output.image);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else if( outputBits == 32 ) {
             ImageAndInfo<Gray<S32>,JImageInfo> output = wrapCriticalGrayS32(env,joutput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (S32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+            input.image.data = (U8*)inputArray.data;
+            CriticalArray outputArray(env,output.info.jdata,0);
+            output.image.data = (S32*)outputArray.data;
 
             ConvolveImage::convolve(*kernel, *border.get(),output.image);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else {
             throw std::runtime_error("Can only handle 16-bit or 32-bit integer output images currently");
         }
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        delete kernel;
     } else {
         if( inputBits != 32 || outputBits != 32 ) {
             throw std::runtime_error("Can only handle 32-bit floats currently");
         }
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
-        boofcv::Kernel2D<F32>* kernel = extractKernel2D_F32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel2D<F32>> kernel(extractKernel2D_F32(env,jkernel));
         std::shared_ptr<ImageBorder<F32>> border = FactoryImageBorder::create_SB<F32>(borderType);
         border.get()->setImage(input.image);
 
-        input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-        output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+        input.image.data = (F32*)inputArray.data;
+        CriticalArray outputArray(env,output.info.jdata,0);
+        output.image.data = (F32*)outputArray.data;
 
         ConvolveImage::convolve(*kernel, *border.get(),output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     }
+} catch( ... ) {
+    throwJavaException(env);
 }
 
-
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp b/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp
index d5ddc2c..7b5165b 100644
--- a/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp
@@ -8,7 +8,8 @@ using namespace boofcv;
 
 extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_nativehorizontal(
-    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput ) {
+    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput )
+try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -17,34 +18,33 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_n
     if( isInteger ) {
         ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
         ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
-        boofcv::Kernel1D<S32>* kernel = extractKernel1D_S32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<S32>> kernel(extractKernel1D_S32(env,jkernel));
 
-        input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-        output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+        input.image.data = (U8*)inputArray.data;
+        CriticalArray outputArray(env,output.info.jdata,0);
+        output.image.data = (U8*)outputArray.data;
 
         ConvolveNormalized::horizontal(*kernel, input.image,output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     } else {
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
-        boofcv::Kernel1D<F32>* kernel = extractKernel1D_F32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<F32>> kernel(extractKernel1D_F32(env,jkernel));
 
-        input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-        output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+        input.image.data = (F32*)inputArray.data;
+        CriticalArray outputArray(env,output.info.jdata,0);
+        output.image.data = (F32*)outputArray.data;
 
         ConvolveNormalized::horizontal(*kernel, input.image,output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     }
+} catch( ... ) {
+    throwJavaException(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_nativevertical(
-    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput ) {
+    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput )
+try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -53,30 +53,27 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_n
     if( isInteger ) {
         ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
         ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
-        boofcv::Kernel1D<S32>* kernel = extractKernel1D_S32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<S32>> kernel(extractKernel1D_S32(env,jkernel));
 
-        input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-        output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+        input.image.data = (U8*)inputArray.data;
+        CriticalArray outputArray(env,output.info.jdata,0);
+        output.image.data = (U8*)outputArray.data;
 
         ConvolveNormalized::vertical(*kernel, input.image,output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     } else {
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
-        boofcv::Kernel1D<F32>* kernel = extractKernel1D_F32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<F32>> kernel(extractKernel1D_F32(env,jkernel));
 
-        input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-        output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+        input.image.data = (F32*)inputArray.data;
+        CriticalArray outputArray(env,output.info.jdata,0);
+        output.image.data = (F32*)outputArray.data;
 
         ConvolveNormalized::vertical(*kernel, input.image,output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     }
+} catch( ... ) {
+    throwJavaException(env);
 }
-
 }
\ No newline at end of file
-- 
2.43.0


From 09bb8d5d27852babd752daf1e38051a330ce6762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:38 +0000
Subject: [PATCH 37/37] fix: JNI contour finder called Java inside a critical
 region and let C++ exceptions leave native code

---
 boofcpp-jni/src/main/cpp/NativeChang2004.cpp | 26 +++++++++++++-------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/boofcpp-jni/src/main/cpp/NativeChang2004.cpp b/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
index 315a8e6..6de0b0a 100644
--- a/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
@@ -35,7 +35,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1destroy
 
 JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1process
         (JNIEnv *env, jobject obj, jobject jbinary, jobject jlabel)
-{
+try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     LinearContourLabelChang2004* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
@@ -43,13 +43,15 @@ JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1process
     ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jbinary);
     ImageAndInfo<Gray<S32>,JImageInfo> label = wrapCriticalGrayS32(env,jlabel);
 
-    input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-    label.image.data = (S32*)env->GetPrimitiveArrayCritical((jarray)label.info.jdata, 0);
+    {
+        CriticalArray inputArray(env,input.info.jdata,JNI_ABORT);
+        input.image.data = (U8*)inputArray.data;
+        CriticalArray labelArray(env,label.info.jdata,0);
+        label.image.data = (S32*)labelArray.data;
 
-    contour->process(input.image, label.image);
+        contour->process(input.image, label.image);
+    } // arrays are released here since Java is called below
 
-    env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-    env->ReleasePrimitiveArrayCritical((jarray)label.info.jdata, label.image.data, 0);
 
     jfieldID fidPoints = safe_GetFieldID(env, objClass, "storagePoints", "Lorg/ddogleg/struct/GrowQueue_I32;");
     jobject jpoints = env->GetObjectField(obj,fidPoints);
@@ -70,6 +72,8 @@ JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1process
     copy_into_java(env,contour->packedPoints,jpacked);
 
     // TODO storageContours
+} catch( ... ) {
+    throwJavaException(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_setSaveInnerContour
@@ -134,7 +138,7 @@ JNIEXPORT jint JNICALL Java_org_boofcpp_contour_NativeChang2004_getMaxContour
 
 JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_setConnectRule
         (JNIEnv *env, jobject obj, jobject jrule )
-{
+try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
     auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
@@ -155,12 +159,13 @@ JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_setConnectRule
         default:
             throw "Unknown connect rule";
     }
-
+} catch( ... ) {
+    throwJavaException(env);
 }
 
 JNIEXPORT jobject JNICALL Java_org_boofcpp_contour_NativeChang2004_getConnectRule
         (JNIEnv *env, jobject obj)
-{
+try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "nativePtr", "J");
     auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
@@ -185,5 +190,8 @@ JNIEXPORT jobject JNICALL Java_org_boofcpp_contour_NativeChang2004_getConnectRul
         throw "Could lookup static field";
     }
     return ret;
+} catch( ... ) {
+    throwJavaException(env);
+    return nullptr;
 }
 }
\ No newline at end of file
-- 
2.43.0

