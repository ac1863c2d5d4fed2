From 7f50f36ccbe7ec7af2653ccfbf8b74bc032b893c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:28 +0000
Subject: [PATCH 01/50] fix: GrowArray fill/grow_array/resize wrote the value
 bytewise instead of per element

---
 boofcpp/src/boofcv/base_types.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/boofcpp/src/boofcv/base_types.h b/boofcpp/src/boofcv/base_types.h
index 76c5965..ca231f6 100644
--- a/boofcpp/src/boofcv/base_types.h
+++ b/boofcpp/src/boofcv/base_types.h
@@ -1,6 +1,7 @@
 #ifndef BOOFCPP_BASE_TYPES_H
 #define BOOFCPP_BASE_TYPES_H
 
+#include <algorithm>
 #include <cstdint>
 #include <stdexcept>
 #include <cstring>
@@ -127,7 +128,7 @@ namespace boofcv {
                 delete []this->data;
                 this->data = new T[new_size];
                 this->array_length = new_size;
-                memset(data,default_value,new_size);
+                std::fill(this->data,this->data+new_size,default_value);
             }
             this->size = 0;
         }
@@ -143,7 +144,7 @@ namespace boofcv {
             if( new_size > array_length ) {
                 auto *tmp = new T[new_size];
                 memmove(tmp,this->data,sizeof(T)*this->size);
-                memset(&tmp[this->size],default_value,sizeof(T)*(new_size-this->size));
+                std::fill(tmp+this->size,tmp+new_size,default_value);
                 delete []this->data;
                 this->data = tmp;
                 this->array_length = new_size;
@@ -152,7 +153,7 @@ namespace boofcv {
         }
 
         void fill( T value ) {
-            std::memset(this->data,value,this->size*sizeof(T));
+            std::fill(this->data,this->data+this->size,value);
         }
 
         T& at( uint32_t index ) const {
-- 
2.43.0


From 440b3e9519ce5dd979984611d2bea4afa573f0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:28 +0000
Subject: [PATCH 02/50] fix: copy constructing a GrowArray or kernel shared its
 buffer and freed it twice

---
 boofcpp/src/boofcv/base_types.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/boofcpp/src/boofcv/base_types.h b/boofcpp/src/boofcv/base_types.h
index ca231f6..0e4cf6f 100644
--- a/boofcpp/src/boofcv/base_types.h
+++ b/boofcpp/src/boofcv/base_types.h
@@ -98,6 +98,16 @@ namespace boofcv {
 
         }
 
+        // copy constructor. The copy always owns its own data
+        GrowArray( const GrowArray<T>& other ) {
+            this->default_value = other.default_value;
+            this->data = new T[other.size];
+            this->size = other.size;
+            this->array_length = other.size;
+            this->can_resize = true;
+            std::copy(other.data,other.data+other.size,this->data);
+        }
+
         GrowArray(std::initializer_list<T> l ){
             this->size = this->array_length = (uint32_t)l.size();
             this->can_resize = true;
-- 
2.43.0


From 709e5dddb1014f3b474d75584340e90d8468334f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:28 +0000
Subject: [PATCH 03/50] fix: ImageBase::getHeight() returned the width

---
 boofcpp/src/boofcv/image_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index ddf14b8..1ca6cd3 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -44,7 +44,7 @@ namespace boofcv {
         }
 
         uint32_t getHeight() const {
-            return width;
+            return height;
         }
 
         /**
-- 
2.43.0


From f54d155abefa5936cc7052ba49991cfec82a30e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:07 +0000
Subject: [PATCH 04/50] fix: copying a Gray image freed its buffer twice,
 assigning a sub-image leaked the old one

---
 boofcpp/src/boofcv/image_types.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 1ca6cd3..c4a7da7 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -135,6 +135,14 @@ namespace boofcv {
         Gray() : Gray(0,0) {
         }
 
+        /**
+         * Copy constructor. Same behavior as the assignment operator. A copy of a sub-image is a sub-image which
+         * references the same data, otherwise the pixels are copied.
+         */
+        Gray( const Gray<T>& other ) : Gray(0,0) {
+            *this = other;
+        }
+
         ~Gray() {
             if( !this->subimage ) {
                 delete[]this->data;
@@ -201,6 +209,10 @@ namespace boofcv {
         {
             if (this != &other) { // self-assignment check expected
                 if( other.subimage ) {
+                    // free the data being replaced, unless 'other' is a view of it
+                    if( !this->subimage && this->data != other.data ) {
+                        delete []this->data;
+                    }
                     this->data = other.data;
                     this->data_length = other.data_length;
                     this->width = other.width;
-- 
2.43.0


From 232b69029f57e7ec21d74a676c5a6a200ebe0cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:07 +0000
Subject: [PATCH 05/50] fix: Gray list constructor leaked its buffer when rows
 have different lengths

---
 boofcpp/src/boofcv/image_types.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index c4a7da7..3a05800 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -115,6 +115,12 @@ namespace boofcv {
             } else {
                 this->width = static_cast<uint32_t >(l.begin()->size());
             }
+            // check the shape first so that nothing is leaked if it's invalid
+            for (auto& x : l ) {
+                if( x.size() != this->width ) {
+                    throw invalid_argument("width missmatch");
+                }
+            }
             this->data = new T[this->width*this->height]();
             this->data_length = this->width*this->height;
             this->offset = 0;
@@ -123,9 +129,6 @@ namespace boofcv {
             
             T* ptr = this->data;
             for (auto& x : l ) {
-                if( x.size() != this->width ) {
-                    throw invalid_argument("width missmatch");
-                }
                 for(auto& y : x ) {
                     *ptr++ = y;
                 }
-- 
2.43.0


From 6a95075f7a8e336be1d53298073092eaaf9c456f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:07 +0000
Subject: [PATCH 06/50] fix: Planar destructor freed the wrong pointer,
 setNumberOfBands and setTo did not compile

---
 boofcpp/src/boofcv/image_types.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 3a05800..9f678f5 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -264,7 +264,7 @@ namespace boofcv {
             this->offset = 0;
             this->stride = 0;
             for( uint32_t i = 0; i < num_bands; i++ ) {
-                delete bands;
+                delete bands[i];
             }
             delete []bands;
             bands = NULL;
@@ -283,7 +283,7 @@ namespace boofcv {
         }
 
         void setNumberOfBands( uint32_t desired ) {
-            T* new_bands;
+            T** new_bands;
             if( desired > this->num_bands ) {
                 new_bands = new T*[desired];
                 for( uint32_t i = 0; i < this->num_bands; i++ ) {
@@ -323,7 +323,7 @@ namespace boofcv {
             }
             setNumberOfBands(src.num_bands);
             for( uint32_t i = 0; i < this->num_bands; i++ ) {
-                this->bands[i]->setTo(src.bands[i]);
+                this->bands[i]->copy(*src.bands[i]);
             }
         }
 
-- 
2.43.0


From da6c64ea4585627b75d7ca8e398835f1c7866ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:07 +0000
Subject: [PATCH 07/50] fix: Interleaved setTo only copied part of multi-byte
 pixels, at() ignored out of range bands

---
 boofcpp/src/boofcv/image_types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 9f678f5..aca0512 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -433,7 +433,7 @@ namespace boofcv {
         }
 
         T& at( uint32_t x , uint32_t y , uint32_t band ) const {
-            if( x >= this->width || y >= this->height )
+            if( x >= this->width || y >= this->height || band >= this->num_bands )
                 throw invalid_argument("out of range");
             return data[this->offset + y*this->stride + x*this->num_bands + band];
         }
@@ -471,7 +471,7 @@ namespace boofcv {
             }
             // This will handle the situation where all of some of the images are sub-images
             for( uint32_t y = 0; y < this->height; y++ ) {
-                memcpy(this->data+this->offset+y*this->stride,src.data+src.offset+y*src.stride,src.width*this->num_bands);
+                memcpy(this->data+this->offset+y*this->stride,src.data+src.offset+y*src.stride,sizeof(T)*src.width*this->num_bands);
             }
         }
 
-- 
2.43.0


From 6bf5684ea37b7d0b38ebd832d1ebb5f02dc48ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:07 +0000
Subject: [PATCH 08/50] fix: copying an Interleaved image shared its buffer and
 freed it twice

---
 boofcpp/src/boofcv/image_types.h | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index aca0512..1234cfb 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -378,6 +378,14 @@ namespace boofcv {
         Interleaved() : Interleaved(0,0,0) {
         }
 
+        /**
+         * Copy constructor. Same behavior as the assignment operator. A copy of a sub-image is a sub-image which
+         * references the same data, otherwise the pixels are copied.
+         */
+        Interleaved( const Interleaved<T>& other ) : Interleaved(0,0,0) {
+            *this = other;
+        }
+
         ~Interleaved() {
             if( !this->subimage ) {
                 this->width = 0;
@@ -488,6 +496,29 @@ namespace boofcv {
         uint32_t index_of( uint32_t x , uint32_t y , uint32_t band) const {
             return this->offset + y*this->stride + x*this->num_bands + band;
         }
+
+        Interleaved<T>& operator=(const Interleaved<T>& other) // copy assignment
+        {
+            if (this != &other) { // self-assignment check expected
+                if( other.subimage ) {
+                    // free the data being replaced, unless 'other' is a view of it
+                    if( !this->subimage && this->data != other.data ) {
+                        delete []this->data;
+                    }
+                    this->data = other.data;
+                    this->data_length = other.data_length;
+                    this->width = other.width;
+                    this->height = other.height;
+                    this->num_bands = other.num_bands;
+                    this->offset = other.offset;
+                    this->stride = other.stride;
+                    this->subimage = true;
+                } else {
+                    this->setTo(other);
+                }
+            }
+            return *this;
+        }
     };
 }
 
-- 
2.43.0


From 101d6e04b6855e50681b359b4bbc3546cfa2744a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:41 +0000
Subject: [PATCH 09/50] fix: ImageStatistics min/max ignored the stride and
 offset of sub-images, max was wrong if all pixels are negative

---
 boofcpp/src/boofcv/image_statistics.h | 30 +++++++++++++++------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/boofcpp/src/boofcv/image_statistics.h b/boofcpp/src/boofcv/image_statistics.h
index 81f08ba..59686c3 100644
--- a/boofcpp/src/boofcv/image_statistics.h
+++ b/boofcpp/src/boofcv/image_statistics.h
@@ -12,12 +12,14 @@ namespace boofcv {
         static T min( const Gray<T>& input) {
             T min_value = std::numeric_limits<T>::max();
 
-            const T* ptr = input.data;
-            const T* end = &ptr[input.total_pixels()];
-            while( ptr != end ) {
-                const T& v = *ptr++;
-                if( v < min_value ) {
-                    min_value = v;
+            for( uint32_t y = 0; y < input.height; y++ ) {
+                const T* ptr = &input.data[input.offset + y*input.stride];
+                const T* end = &ptr[input.width];
+                while( ptr != end ) {
+                    const T& v = *ptr++;
+                    if( v < min_value ) {
+                        min_value = v;
+                    }
                 }
             }
 
@@ -26,14 +28,16 @@ namespace boofcv {
 
         template<class T>
         static T max( const Gray<T>& input) {
-            T max_value = std::numeric_limits<T>::min();
+            T max_value = std::numeric_limits<T>::lowest();
 
-            const T* ptr = input.data;
-            const T* end = &ptr[input.total_pixels()];
-            while( ptr != end ) {
-                const T& v = *ptr++;
-                if( v > max_value ) {
-                    max_value = v;
+            for( uint32_t y = 0; y < input.height; y++ ) {
+                const T* ptr = &input.data[input.offset + y*input.stride];
+                const T* end = &ptr[input.width];
+                while( ptr != end ) {
+                    const T& v = *ptr++;
+                    if( v > max_value ) {
+                        max_value = v;
+                    }
                 }
             }
 
-- 
2.43.0


From f2bbdc0ff9523a77f2b0ccda8dfd95ce8c3d5743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:41 +0000
Subject: [PATCH 10/50] fix: ImageStatistics::mean was wrong for signed images
 with a negative sum

---
 boofcpp/src/boofcv/image_statistics.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/image_statistics.h b/boofcpp/src/boofcv/image_statistics.h
index 59686c3..a6d17fa 100644
--- a/boofcpp/src/boofcv/image_statistics.h
+++ b/boofcpp/src/boofcv/image_statistics.h
@@ -59,8 +59,9 @@ namespace boofcv {
 
         template<class T>
         static T mean( const Gray<T>& input) {
-            typename TypeInfo<T>::sum_type a = sum(input);
-            return static_cast<T>(a / (input.width * input.height));
+            typedef typename TypeInfo<T>::sum_type sum_type;
+            sum_type a = sum(input);
+            return static_cast<T>(a / static_cast<sum_type>(input.width * input.height));
         }
 
         template<class T>
-- 
2.43.0


From 64890a47db05a19496e59b99dfd21b9a2b29ba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:41 +0000
Subject: [PATCH 11/50] fix: ImageMiscOps fill and fill_uniform wrote outside
 of sub-images

---
 boofcpp/src/boofcv/image_misc_ops.h | 30 +++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/boofcpp/src/boofcv/image_misc_ops.h b/boofcpp/src/boofcv/image_misc_ops.h
index 5927518..e2cdf23 100644
--- a/boofcpp/src/boofcv/image_misc_ops.h
+++ b/boofcpp/src/boofcv/image_misc_ops.h
@@ -60,10 +60,12 @@ namespace boofcv {
 
         template<class E>
         static void fill( Interleaved<E>& image , E value ) {
-            E* ptr = image.data;
-            E* end = &ptr[image.total_pixels()*image.num_bands];
-            while( ptr != end ) {
-                *ptr++ = value;
+            for( uint32_t y = 0; y < image.height; y++ ) {
+                E* ptr = &image.data[image.offset + y*image.stride];
+                E* end = &ptr[image.width*image.num_bands];
+                while( ptr != end ) {
+                    *ptr++ = value;
+                }
             }
         }
 
@@ -80,10 +82,12 @@ namespace boofcv {
 
             std::uniform_int_distribution<E> dis(min_value, max_value-1);
 
-            E* ptr = image.data;
-            E* end = &ptr[image.total_pixels()];
-            while( ptr != end ) {
-                *ptr++ = dis(rng);
+            for( uint32_t y = 0; y < image.height; y++ ) {
+                E* ptr = &image.data[image.offset + y*image.stride];
+                E* end = &ptr[image.width];
+                while( ptr != end ) {
+                    *ptr++ = dis(rng);
+                }
             }
         }
 
@@ -91,10 +95,12 @@ namespace boofcv {
         static void fill_uniform( Gray<E>& image , E min_value , E max_value , RNG& rng, typename std::enable_if<std::is_floating_point<E>::value >::type* = 0) {
             std::uniform_real_distribution<E> dis(min_value, max_value);
 
-            E* ptr = image.data;
-            E* end = &ptr[image.total_pixels()];
-            while( ptr != end ) {
-                *ptr++ = dis(rng);
+            for( uint32_t y = 0; y < image.height; y++ ) {
+                E* ptr = &image.data[image.offset + y*image.stride];
+                E* end = &ptr[image.width];
+                while( ptr != end ) {
+                    *ptr++ = dis(rng);
+                }
             }
         }
     };
-- 
2.43.0


From 1e885b8004a123898d8561c98c2220c4b2164d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:41 +0000
Subject: [PATCH 12/50] fix: convert_average was wrong for signed images with
 negative pixels

---
 boofcpp/src/boofcv/image_convert.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_convert.h b/boofcpp/src/boofcv/image_convert.h
index 8e7439e..47025e3 100644
--- a/boofcpp/src/boofcv/image_convert.h
+++ b/boofcpp/src/boofcv/image_convert.h
@@ -32,7 +32,7 @@ namespace boofcv {
                     sum += *input_ptr++;
                 }
 
-                *output_ptr++ = static_cast<E>(sum/input.num_bands);
+                *output_ptr++ = static_cast<E>(sum/static_cast<sum_type>(input.num_bands));
             }
         }
     }
-- 
2.43.0


From 50f40ba11ab4b6c3e70a24d39182ad822bd2fdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:42 +0000
Subject: [PATCH 13/50] fix: FactoryKernel::normalize only scaled the first row
 of a 2D kernel

---
 boofcpp/src/boofcv/convolve_kernels.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/convolve_kernels.h b/boofcpp/src/boofcv/convolve_kernels.h
index 122045c..4c8f511 100644
--- a/boofcpp/src/boofcv/convolve_kernels.h
+++ b/boofcpp/src/boofcv/convolve_kernels.h
@@ -259,7 +259,7 @@ namespace boofcv {
 
             typename Kernel1D<E>::sum_type sum = kernel.sum();
 
-            for( uint32_t i = 0; i < kernel.width; i++ ) {
+            for( uint32_t i = 0; i < kernel.data.size; i++ ) {
                 kernel.data[i] /= sum;
             }
         }
-- 
2.43.0


From 912deb225c09258708bd5193c394fd93c3ec2148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:42 +0000
Subject: [PATCH 14/50] fix: gaussian2D ignored the width selected from sigma

---
 boofcpp/src/boofcv/convolve_kernels.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/boofcpp/src/boofcv/convolve_kernels.h b/boofcpp/src/boofcv/convolve_kernels.h
index 4c8f511..547126b 100644
--- a/boofcpp/src/boofcv/convolve_kernels.h
+++ b/boofcpp/src/boofcv/convolve_kernels.h
@@ -333,6 +333,7 @@ namespace boofcv {
                                       typename std::enable_if<std::is_floating_point<E>::value>::type* = 0 )
         {
             Kernel1D<E> seed = gaussian1D<E>(sigma,width);
+            width = (int32_t)seed.width; // the width is selected from sigma if it was <= 0
             Kernel2D<E> output(width,width/2);
 
             for( int i = 0; i < width; i++ ) {
-- 
2.43.0


From 165bce6f220e85ed56fcd715a56878cf6231c137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:03 +0000
Subject: [PATCH 15/50] fix: reflect and wrap borders read outside of the image
 more than one image length away from it

---
 boofcpp/src/boofcv/image_border.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/boofcpp/src/boofcv/image_border.h b/boofcpp/src/boofcv/image_border.h
index ffc2a20..03363a0 100644
--- a/boofcpp/src/boofcv/image_border.h
+++ b/boofcpp/src/boofcv/image_border.h
@@ -98,10 +98,13 @@ namespace boofcv {
     class ImageBorderReflect : public ImageBorderIndex<E> {
     public:
         void adjust( int32_t& x , const uint32_t& max_value ) const override {
-            if( x < 0 )
-                x = -x;
-            else if( x >= max_value)
-                x = max_value-2-(x-max_value);
+            const int64_t N = max_value;
+            // the reflected pattern repeats every 2*(N-1) pixels
+            const int64_t period = N > 1 ? 2*(N-1) : 1;
+            int64_t v = x % period;
+            if( v < 0 )
+                v += period;
+            x = (int32_t)(v < N ? v : period-v);
         }
     };
 
@@ -112,10 +115,10 @@ namespace boofcv {
     class ImageBorderWrap : public ImageBorderIndex<E> {
     public:
         void adjust( int32_t& x , const uint32_t& max_value ) const override {
-            if( x < 0 )
-                x = max_value+x;
-            else if( x >= max_value)
-                x = x-max_value;
+            int64_t v = x % (int64_t)max_value;
+            if( v < 0 )
+                v += max_value;
+            x = (int32_t)v;
         }
     };
 
-- 
2.43.0


From e9f51ed5753267eaf9fb9daa1e42672665958b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:52 +0000
Subject: [PATCH 16/50] fix: naive vertical normalized convolution truncated
 kernel weights to the pixel type

---
 boofcpp/src/boofcv/convolve.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/convolve.h b/boofcpp/src/boofcv/convolve.h
index 0fb81e3..48deba5 100644
--- a/boofcpp/src/boofcv/convolve.h
+++ b/boofcpp/src/boofcv/convolve.h
@@ -307,7 +307,7 @@ namespace boofcv {
                     signed_type weight = 0;
 
                     for( int32_t i = startY; i < endY; i++ ) {
-                        E v = kernel.at(i-y+kernel.offset);
+                        signed_type v = kernel.at(i-y+kernel.offset);
                         total += input.unsafe_at(x,i)*v;
                         weight += v;
                     }
@@ -340,7 +340,7 @@ namespace boofcv {
                     signed_type weight = 0;
 
                     for( int32_t i = startY; i < endY; i++ ) {
-                        E v = kernel.at(i-y+kernel.offset);
+                        signed_type v = kernel.at(i-y+kernel.offset);
                         total += input.unsafe_at(x,i)*v;
                         weight += v;
                     }
-- 
2.43.0


From 710065f6d2485474074b05161a03d62d41035a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:52 +0000
Subject: [PATCH 17/50] fix: vertical mean filter checked the kernel against
 the image width and wrote out of bounds

---
 boofcpp/src/boofcv/image_blur.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_blur.h b/boofcpp/src/boofcv/image_blur.h
index c16709c..3e53c57 100644
--- a/boofcpp/src/boofcv/image_blur.h
+++ b/boofcpp/src/boofcv/image_blur.h
@@ -194,7 +194,7 @@ namespace boofcv {
             typedef typename TypeInfo<E>::signed_type signed_type;
 
             Kernel1D<signed_type> kernel = FactoryKernel::mean1D<signed_type>(radius*2+1);
-            if( kernel.width > input.width ) {
+            if( kernel.width > input.height ) {
                 ConvolveNormalized::vertical(kernel,input,output);
             } else {
                 ConvolveNormalized_JustBorder::vertical(kernel, input ,output );
-- 
2.43.0


From a3ad750659eb57268b169472ff17f385dc0e0c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:16 +0000
Subject: [PATCH 18/50] fix: erode4 and dilate4 never wrote the image border
 and went out of bounds on empty images

---
 boofcpp/src/boofcv/binary_ops.cpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/boofcpp/src/boofcv/binary_ops.cpp b/boofcpp/src/boofcv/binary_ops.cpp
index 87929f8..40bf4fe 100644
--- a/boofcpp/src/boofcv/binary_ops.cpp
+++ b/boofcpp/src/boofcv/binary_ops.cpp
@@ -2,6 +2,7 @@
 
 #include "binary_ops.h"
 #include "sanity_checks.h"
+#include "image_misc_ops.h"
 
 using namespace boofcv;
 
@@ -42,10 +43,13 @@ void boofcv::BinaryImageOps::logicOr(const Gray<U8>& inputA , const Gray<U8>& in
 void boofcv::BinaryImageOps::erode4(const Gray<U8>& input, Gray<U8>& output) {
     output.reshape(input.width,input.height);
 
-    const int h = input.height - 1;
-    const int w = input.width - 2;
+    // pixels outside the image are considered to be zero
+    ImageMiscOps::fill_border(output,(U8)0,1);
 
-    for (uint32_t y = 1; y < h; y++) {
+    const int h = (int)input.height - 1;
+    const int w = std::max(0,(int)input.width - 2);
+
+    for (int y = 1; y < h; y++) {
         uint32_t indexIn = input.offset + y * input.stride + 1;
         uint32_t indexOut = output.offset + y * output.stride + 1;
 
@@ -64,10 +68,22 @@ void boofcv::BinaryImageOps::erode4(const Gray<U8>& input, Gray<U8>& output) {
 void boofcv::BinaryImageOps::dilate4(const Gray<U8>& input, Gray<U8>& output) {
     output.reshape(input.width,input.height);
 
-    const int h = input.height - 1;
-    const int w = input.width - 2;
+    // pixels outside the image are considered to be zero
+    for (uint32_t y = 0; y < input.height; y++) {
+        const bool edge_row = y == 0 || y + 1 == input.height;
+        const uint32_t step = edge_row || input.width == 1 ? 1 : input.width - 1;
+        for (uint32_t x = 0; x < input.width; x += step) {
+            const U8* p = &input.data[input.index_of(x,y)];
+            const bool on = p[0] || (x > 0 && p[-1]) || (x + 1 < input.width && p[1]) ||
+                            (y > 0 && *(p - input.stride)) || (y + 1 < input.height && p[input.stride]);
+            output.unsafe_at(x,y) = static_cast<U8>(on);
+        }
+    }
+
+    const int h = (int)input.height - 1;
+    const int w = std::max(0,(int)input.width - 2);
 
-    for (uint32_t y = 1; y < h; y++) {
+    for (int y = 1; y < h; y++) {
         uint32_t indexIn = input.offset + y * input.stride + 1;
         uint32_t indexOut = output.offset + y * output.stride + 1;
 
-- 
2.43.0


From 59f2c99e8e5b3c96c48d6060bfc4ad0cb6cb7088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:16 +0000
Subject: [PATCH 19/50] fix: computeOtsu returned a threshold relative to
 min_value instead of a pixel value

---
 boofcpp/src/boofcv/binary_ops.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/binary_ops.h b/boofcpp/src/boofcv/binary_ops.h
index 5ecf40d..1ef4f5b 100644
--- a/boofcpp/src/boofcv/binary_ops.h
+++ b/boofcpp/src/boofcv/binary_ops.h
@@ -119,7 +119,8 @@ namespace boofcv
             // this should configure so that all the really fancy stuff has been turned off
             ComputeOtsu otsu(otsu2,0,true,1.0);
             otsu.compute(histogram, input.total_pixels());
-            return (uint32_t)otsu.threshold;
+            // the histogram starts at min_value
+            return (uint32_t)(otsu.threshold + min_value);
         }
 
         /**
-- 
2.43.0


From 106afed4b9b4a11bb3c43dea7ee4692d7de4e651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:49 +0000
Subject: [PATCH 20/50] fix: block thresholds divided by zero when the
 requested block width is zero

---
 boofcpp/src/boofcv/threshold_block_filters.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/boofcpp/src/boofcv/threshold_block_filters.h b/boofcpp/src/boofcv/threshold_block_filters.h
index d3d7655..505e8ed 100644
--- a/boofcpp/src/boofcv/threshold_block_filters.h
+++ b/boofcpp/src/boofcv/threshold_block_filters.h
@@ -70,6 +70,10 @@ namespace boofcv
             checkSameShape(input,output);
 
             auto requestedBlockWidth = (uint32_t)this->requestedBlockWidth.computeI( std::min(input.width,input.height));
+            if( requestedBlockWidth == 0 ) {
+                throw invalid_argument("Block size must be at least one pixel");
+            }
+
             if( input.width < requestedBlockWidth || input.height < requestedBlockWidth ) {
                 throw invalid_argument("Image is smaller than block size");
             }
-- 
2.43.0


From 145c98d0a12957423cc92a538d9dc297721aca20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:49 +0000
Subject: [PATCH 21/50] fix: ThresholdBlockMinMax treated a negative
 minimumSpread as textureless and was wrong for negative pixels

---
 boofcpp/src/boofcv/threshold_block_filters.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/threshold_block_filters.h b/boofcpp/src/boofcv/threshold_block_filters.h
index 505e8ed..8790dc2 100644
--- a/boofcpp/src/boofcv/threshold_block_filters.h
+++ b/boofcpp/src/boofcv/threshold_block_filters.h
@@ -448,7 +448,7 @@ namespace boofcv
 
             // find the min and max pixel values inside this block region
             E min = std::numeric_limits<E>::max();
-            E max = std::numeric_limits<E>::min();
+            E max = std::numeric_limits<E>::lowest();
 
             for (uint32_t y = blockY0; y <= blockY1; y++) {
                 for (uint32_t x = blockX0; x <= blockX1; x++) {
@@ -463,7 +463,8 @@ namespace boofcv
             }
 
             // apply threshold
-            auto textureThreshold = static_cast<sum_type>(this->minimumSpread);
+            // signed so that a negative value can disable the check
+            auto textureThreshold = static_cast<typename TypeInfo<E>::signed_type>(this->minimumSpread);
             for (uint32_t y = y0; y < y1; y++) {
                 E* input_ptr = &input.data[input.offset + y*input.stride + x0];
                 U8* output_ptr = &output.data[output.offset + y*output.stride + x0];
-- 
2.43.0


From 1853b03af078b25a03f26bae3c9e06b74ddbf6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:09 +0000
Subject: [PATCH 22/50] fix: JNI threshold wrappers left the input array locked
 when the native filter threw

---
 boofcpp-jni/src/main/cpp/JNIBoofCPP.h          | 16 ++++++++++++++++
 boofcpp-jni/src/main/cpp/NativeBlockMean.cpp   |  7 ++++---
 boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp |  7 ++++---
 boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp   |  7 ++++---
 boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp |  7 ++++---
 boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp  |  7 ++++---
 boofcpp-jni/src/main/cpp/NativeLocalMean.cpp   |  7 ++++---
 7 files changed, 40 insertions(+), 18 deletions(-)

diff --git a/boofcpp-jni/src/main/cpp/JNIBoofCPP.h b/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
index c9a72a8..e24405e 100644
--- a/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
+++ b/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
@@ -78,6 +78,22 @@ struct ImageAndInfo {
     Info info;
 };
 
+/**
+ * Releases a critical array, without copying back changes, when it goes out of scope. This way it's released even if
+ * an exception is thrown.
+ */
+struct ScopedCriticalInput {
+    JNIEnv *env;
+    jobject array;
+    void *data;
+
+    ScopedCriticalInput( JNIEnv *env, jobject array, void *data ) : env(env), array(array), data(data) {}
+    ~ScopedCriticalInput() {
+        if( data != nullptr )
+            env->ReleasePrimitiveArrayCritical((jarray)array, data, JNI_ABORT);
+    }
+};
+
 void copy_into_java( JNIEnv *env, const boofcv::PackedSet<boofcv::Point2D<boofcv::S32>>& src , jobject dst );
 
 jclass safe_FindClass( JNIEnv *env, const char* name );
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp b/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
index 18ede7d..703e235 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
@@ -61,15 +61,15 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeprocess
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
             ((ThresholdBlockMean<U8>*)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
             ((ThresholdBlockMean<F32> *)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
         printf("Exception!!\n");
@@ -77,7 +77,8 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeprocess
     }
 
     // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
+    if( output.image.data != nullptr )
+        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp b/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
index 35fe579..d0274c5 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
@@ -62,15 +62,15 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeproces
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
             ((ThresholdBlockMinMax<U8>*)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
             ((ThresholdBlockMinMax<F32> *)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
         printf("Exception!!\n");
@@ -78,7 +78,8 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeproces
     }
 
     // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
+    if( output.image.data != nullptr )
+        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp b/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
index 2652302..29596bf 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
@@ -61,15 +61,15 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeprocess
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
             ((ThresholdBlockOtsu<U8>*)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
             ((ThresholdBlockOtsu<F32> *)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
         printf("Exception!!\n");
@@ -77,7 +77,8 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeprocess
     }
 
     // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
+    if( output.image.data != nullptr )
+        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp b/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
index 8baa758..79d2d6b 100644
--- a/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
@@ -60,15 +60,15 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeproces
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
             ((GlobalFixedBinaryFilter<U8>*)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
              output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
             ((GlobalFixedBinaryFilter<F32> *)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
         printf("Exception!!\n");
@@ -76,7 +76,8 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeproces
     }
 
     // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
+    if( output.image.data != nullptr )
+        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp b/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
index 1d62507..8211aa2 100644
--- a/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
@@ -57,15 +57,15 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeprocess
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
             ((GlobalOtsuBinaryFilter<U8>*)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
             ((GlobalOtsuBinaryFilter<F32> *)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
         printf("Exception!!\n");
@@ -73,7 +73,8 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeprocess
     }
 
     // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
+    if( output.image.data != nullptr )
+        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp b/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
index 3ba111b..4d13ec6 100644
--- a/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
@@ -61,15 +61,15 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeprocess
         if( isInteger ) {
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
             ((InputToBinary<Gray<U8>>*)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
             ((InputToBinary<Gray<F32>> *)nativePtr)->process(input.image, output.image);
-            env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
         printf("Exception!!\n");
@@ -77,7 +77,8 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeprocess
     }
 
     // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
+    if( output.image.data != nullptr )
+        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
-- 
2.43.0


From febc1fc52ad7fae16c055aa07c1723e89580208c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:13 +0000
Subject: [PATCH 23/50] fix: Planar::at did not compile because it returned a
 band instead of a pixel

---
 boofcpp/src/boofcv/image_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 1234cfb..2c5ed01 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -308,7 +308,7 @@ namespace boofcv {
             this->num_bands = desired;
         }
 
-        T& at( uint32_t x , uint32_t y , uint32_t band ) const {
+        typename T::pixel_type& at( uint32_t x , uint32_t y , uint32_t band ) const {
             if( band >= this->num_bands )
                 throw invalid_argument("Band out of range");
 
-- 
2.43.0


From 811d3061501f391f2737ca8fcb65b294d00715b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:13 +0000
Subject: [PATCH 24/50] fix: copies of a Planar image shared its bands, which
 were then freed twice

---
 boofcpp/src/boofcv/image_types.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 2c5ed01..e1c5b61 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -258,6 +258,13 @@ namespace boofcv {
         Planar() : Planar(0,0,0) {
         }
 
+        /**
+         * Copy constructor. The bands are copied
+         */
+        Planar( const Planar<T>& other ) : Planar(0,0,0) {
+            setTo(other);
+        }
+
         ~Planar() {
             this->width = 0;
             this->height = 0;
@@ -332,6 +339,14 @@ namespace boofcv {
                 throw invalid_argument("Requested an out of bounds band");
             return *(this->bands[which]);
         }
+
+        Planar<T>& operator=(const Planar<T>& other) // copy assignment
+        {
+            if (this != &other) { // self-assignment check expected
+                setTo(other);
+            }
+            return *this;
+        }
     };
 
     /**
-- 
2.43.0


From ed6b315ad7645fd114c44e339cde7e72e6df3f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:51 +0000
Subject: [PATCH 25/50] fix: Kernel2D list constructor accepted an origin
 outside of the kernel

---
 boofcpp/src/boofcv/convolve_kernels.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/boofcpp/src/boofcv/convolve_kernels.h b/boofcpp/src/boofcv/convolve_kernels.h
index 547126b..c197f57 100644
--- a/boofcpp/src/boofcv/convolve_kernels.h
+++ b/boofcpp/src/boofcv/convolve_kernels.h
@@ -165,10 +165,8 @@ namespace boofcv {
         Kernel2D( uint32_t width ) : Kernel2D(width,width/2) {
         }
 
-        Kernel2D(uint32_t offset, std::initializer_list<std::initializer_list<E>> l ) {
-            this->width = static_cast<uint32_t >(l.size());
-            this->offset = offset;
-
+        Kernel2D(uint32_t offset, std::initializer_list<std::initializer_list<E>> l ) :
+                KernelBase<E>(static_cast<uint32_t >(l.size()),offset) {
             this->data.resize(this->width*this->width);
 
             E* ptr = this->data.data;
-- 
2.43.0


From dc541628a7b5243aa388b5a7960626db47bfe5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:08 +0000
Subject: [PATCH 26/50] fix: mean blur of a very wide image overflowed the
 stack

---
 boofcpp/src/boofcv/image_blur.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/image_blur.h b/boofcpp/src/boofcv/image_blur.h
index 3e53c57..760646e 100644
--- a/boofcpp/src/boofcv/image_blur.h
+++ b/boofcpp/src/boofcv/image_blur.h
@@ -4,6 +4,7 @@
 #include "convolve.h"
 #include "sanity_checks.h"
 #include <math.h>
+#include <vector>
 
 namespace boofcv {
     /**
@@ -94,7 +95,7 @@ namespace boofcv {
 
             sum_type divisor = kernelWidth;
             sum_type halfDivisor = divisor/2;
-            sum_type totals[ input.width ];
+            std::vector<sum_type> totals(input.width);
 
             for( uint32_t x = 0; x < input.width; x++ ) {
                 uint32_t indexIn = input.offset + x;
@@ -137,7 +138,7 @@ namespace boofcv {
             uint32_t backStep = kernelWidth*input.stride;
 
             sum_type divisor = kernelWidth;
-            sum_type totals[ input.width ];
+            std::vector<sum_type> totals(input.width);
 
             for( uint32_t x = 0; x < input.width; x++ ) {
                 uint32_t indexIn = input.offset + x;
-- 
2.43.0


From e5869ac82e475b818e354293bb36e524369d68a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:23 +0000
Subject: [PATCH 27/50] fix: loading the native library continues with the next
 place when a library can't be loaded

---
 boofcpp-jni/src/main/java/cz/adamh/utils/NativeUtils.java | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/boofcpp-jni/src/main/java/cz/adamh/utils/NativeUtils.java b/boofcpp-jni/src/main/java/cz/adamh/utils/NativeUtils.java
index 98928fa..bb7ea6d 100644
--- a/boofcpp-jni/src/main/java/cz/adamh/utils/NativeUtils.java
+++ b/boofcpp-jni/src/main/java/cz/adamh/utils/NativeUtils.java
@@ -71,8 +71,10 @@ public class NativeUtils {
         for( String n : getFullNames() ) {
             File f = new File(path,n);
             if( f.exists() ) {
-                System.load(f.getAbsolutePath());
-                return true;
+                try {
+                    System.load(f.getAbsolutePath());
+                    return true;
+                } catch( UnsatisfiedLinkError ignore ){} // e.g. built for a different architecture
             }
         }
         return false;
@@ -90,7 +92,7 @@ public class NativeUtils {
             try {
                 _loadLibraryFromJar(path+n);
                 return true;
-            } catch( IOException ignore ){}
+            } catch( IOException | UnsatisfiedLinkError ignore ){}
         }
         return false;
     }
-- 
2.43.0


From 21833235d286cfc46d83e5d8b4e2a61cbc9b2bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:12 +0000
Subject: [PATCH 28/50] fix: C++ exceptions in the JNI convolution, blur and
 threshold functions ended the VM or were dropped silently

---
 boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp       | 21 ++++++
 boofcpp-jni/src/main/cpp/JNIBoofCPP.h         | 19 ++++-
 boofcpp-jni/src/main/cpp/NativeBlockMean.cpp  |  9 +--
 .../src/main/cpp/NativeBlockMinMax.cpp        |  9 +--
 boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp  |  9 +--
 .../src/main/cpp/NativeGlobalFixed.cpp        | 11 +--
 boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp |  9 +--
 .../src/main/cpp/NativeImageBlurOps.cpp       | 36 ++++-----
 .../src/main/cpp/NativeImageConvolve.cpp      | 73 +++++++++----------
 .../cpp/NativeImageConvolveNormalized.cpp     | 41 +++++------
 boofcpp-jni/src/main/cpp/NativeLocalMean.cpp  |  9 +--
 11 files changed, 128 insertions(+), 118 deletions(-)

diff --git a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
index b00988d..860b4e5 100644
--- a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
+++ b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
@@ -1,5 +1,6 @@
 #include "JNIBoofCPP.h"
 #include <stdexcept>
+#include <string>
 #include <packed_sets.h>
 
 using namespace boofcv;
@@ -141,6 +142,26 @@ void copy_into_java( JNIEnv *env,
     }
 }
 
+void throw_java_exception( JNIEnv *env )
+{
+    // an exception from the virtual machine, e.g. out of memory, has precedence
+    if( env->ExceptionCheck() )
+        return;
+
+    std::string message = "Native code failed";
+    try {
+        throw;
+    } catch( const std::exception& e ) {
+        message = e.what();
+    } catch( const char* e ) {
+        message = e;
+    } catch( ... ) {}
+
+    jclass theclass = env->FindClass("java/lang/RuntimeException");
+    if( theclass != nullptr )
+        env->ThrowNew(theclass,message.c_str());
+}
+
 jclass safe_FindClass( JNIEnv *env, const char* name )
 {
     jclass theclass = env->FindClass(name);
diff --git a/boofcpp-jni/src/main/cpp/JNIBoofCPP.h b/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
index e24405e..c9a1b9d 100644
--- a/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
+++ b/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
@@ -86,14 +86,29 @@ struct ScopedCriticalInput {
     JNIEnv *env;
     jobject array;
     void *data;
+    jint mode;
 
-    ScopedCriticalInput( JNIEnv *env, jobject array, void *data ) : env(env), array(array), data(data) {}
+    ScopedCriticalInput( JNIEnv *env, jobject array, void *data , jint mode = JNI_ABORT )
+        : env(env), array(array), data(data), mode(mode) {}
     ~ScopedCriticalInput() {
         if( data != nullptr )
-            env->ReleasePrimitiveArrayCritical((jarray)array, data, JNI_ABORT);
+            env->ReleasePrimitiveArrayCritical((jarray)array, data, mode);
     }
 };
 
+/**
+ * Same as {@link ScopedCriticalInput} but changes are copied back.
+ */
+struct ScopedCriticalOutput : public ScopedCriticalInput {
+    ScopedCriticalOutput( JNIEnv *env, jobject array, void *data ) : ScopedCriticalInput(env,array,data,0) {}
+};
+
+/**
+ * Turns the C++ exception which is currently being handled into a Java RuntimeException. C++ exceptions must not leave
+ * a native method. Has to be called inside of a catch block and with no critical array held.
+ */
+void throw_java_exception( JNIEnv *env );
+
 void copy_into_java( JNIEnv *env, const boofcv::PackedSet<boofcv::Point2D<boofcv::S32>>& src , jobject dst );
 
 jclass safe_FindClass( JNIEnv *env, const char* name );
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp b/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
index 703e235..9bbfad1 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
@@ -63,22 +63,19 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeprocess
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
             ((ThresholdBlockMean<U8>*)nativePtr)->process(input.image, output.image);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
             ((ThresholdBlockMean<F32> *)nativePtr)->process(input.image, output.image);
         }
     } catch( ... ) {
-        printf("Exception!!\n");
-        // TODO do something here
+        throw_java_exception(env);
     }
-
-    // Release the arrays
-    if( output.image.data != nullptr )
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp b/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
index d0274c5..afe9529 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
@@ -64,22 +64,19 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeproces
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
             ((ThresholdBlockMinMax<U8>*)nativePtr)->process(input.image, output.image);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
             ((ThresholdBlockMinMax<F32> *)nativePtr)->process(input.image, output.image);
         }
     } catch( ... ) {
-        printf("Exception!!\n");
-        // TODO do something here
+        throw_java_exception(env);
     }
-
-    // Release the arrays
-    if( output.image.data != nullptr )
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp b/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
index 29596bf..9646464 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
@@ -63,22 +63,19 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeprocess
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
             ((ThresholdBlockOtsu<U8>*)nativePtr)->process(input.image, output.image);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
             ((ThresholdBlockOtsu<F32> *)nativePtr)->process(input.image, output.image);
         }
     } catch( ... ) {
-        printf("Exception!!\n");
-        // TODO do something here
+        throw_java_exception(env);
     }
-
-    // Release the arrays
-    if( output.image.data != nullptr )
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp b/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
index 79d2d6b..818a8c1 100644
--- a/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
@@ -62,22 +62,19 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeproces
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
             ((GlobalFixedBinaryFilter<U8>*)nativePtr)->process(input.image, output.image);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
-             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
             ((GlobalFixedBinaryFilter<F32> *)nativePtr)->process(input.image, output.image);
         }
     } catch( ... ) {
-        printf("Exception!!\n");
-        // TODO do something here
+        throw_java_exception(env);
     }
-
-    // Release the arrays
-    if( output.image.data != nullptr )
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp b/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
index 8211aa2..eca3204 100644
--- a/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
@@ -59,22 +59,19 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeprocess
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
             ((GlobalOtsuBinaryFilter<U8>*)nativePtr)->process(input.image, output.image);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
             ((GlobalOtsuBinaryFilter<F32> *)nativePtr)->process(input.image, output.image);
         }
     } catch( ... ) {
-        printf("Exception!!\n");
-        // TODO do something here
+        throw_java_exception(env);
     }
-
-    // Release the arrays
-    if( output.image.data != nullptr )
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp b/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp
index 78bb88c..9f9e0f5 100644
--- a/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp
@@ -6,7 +6,7 @@ using namespace boofcv;
 
 extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageBlurOps_nativeMean(
-    JNIEnv *env, jobject obj, jobject jinput, jobject joutput, jint radius, jobject jstorage) {
+    JNIEnv *env, jobject obj, jobject jinput, jobject joutput, jint radius, jobject jstorage) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -18,33 +18,33 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageBlurOps_nativeMean(
         ImageAndInfo<Gray<U8>,JImageInfo> storage = wrapCriticalGrayU8(env,jstorage);
 
         input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
         output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
         storage.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)storage.info.jdata, 0);
+        ScopedCriticalInput release_storage(env, storage.info.jdata, storage.image.data);
 
         BlurImageOps::mean(input.image,output.image,(uint32_t)radius,storage.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        env->ReleasePrimitiveArrayCritical((jarray)storage.info.jdata, storage.image.data, JNI_ABORT);
     } else {
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
         ImageAndInfo<Gray<F32>,JImageInfo> storage = wrapCriticalGrayF32(env,jstorage);
 
         input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
         output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
         storage.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)storage.info.jdata, 0);
+        ScopedCriticalInput release_storage(env, storage.info.jdata, storage.image.data);
 
         BlurImageOps::mean(input.image,output.image,(uint32_t)radius,storage.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        env->ReleasePrimitiveArrayCritical((jarray)storage.info.jdata, storage.image.data, JNI_ABORT);
     }
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageBlurOps_nativeGaussian(
-        JNIEnv *env, jobject obj, jobject jinput, jobject joutput, jdouble sigma, jint radius, jobject jstorage) {
+        JNIEnv *env, jobject obj, jobject jinput, jobject joutput, jdouble sigma, jint radius, jobject jstorage) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -58,29 +58,29 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageBlurOps_nativeGaussi
         ImageAndInfo<Gray<U8>,JImageInfo> storage = wrapCriticalGrayU8(env,jstorage);
 
         input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
         output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
         storage.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)storage.info.jdata, 0);
+        ScopedCriticalInput release_storage(env, storage.info.jdata, storage.image.data);
 
         BlurImageOps::gaussian(input.image,output.image,(double)sigma,(int32_t)width,storage.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        env->ReleasePrimitiveArrayCritical((jarray)storage.info.jdata, storage.image.data, JNI_ABORT);
     } else {
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
         ImageAndInfo<Gray<F32>,JImageInfo> storage = wrapCriticalGrayF32(env,jstorage);
 
         input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
         output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
         storage.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)storage.info.jdata, 0);
+        ScopedCriticalInput release_storage(env, storage.info.jdata, storage.image.data);
 
         BlurImageOps::gaussian(input.image,output.image,(double)sigma,(int32_t)width,storage.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        env->ReleasePrimitiveArrayCritical((jarray)storage.info.jdata, storage.image.data, JNI_ABORT);
     }
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp b/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp
index b74cfd7..71ec1d7 100644
--- a/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp
@@ -5,6 +5,7 @@
 #include <time.h>
 
 #include <stdio.h>
+#include <memory>
 
 using namespace boofcv;
 
@@ -28,7 +29,7 @@ BorderType borderJavaToCpp( int type ) {
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeHorizontal(
-    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput, jint jborderType ) {
+    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput, jint jborderType ) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -41,7 +42,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeHoriz
     if( isInteger ) {
         if( inputBits != 8 )
             throw std::runtime_error("Can only handle 8-bit input integer images currently");
-        boofcv::Kernel1D<S32>* kernel = extractKernel1D_S32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<S32>> kernel(extractKernel1D_S32(env,jkernel));
         std::shared_ptr<ImageBorder<U8>> border = FactoryImageBorder::create_SB<U8>(borderType);
 
         ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
@@ -50,7 +51,9 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeHoriz
         if( outputBits == 16 ) {
             ImageAndInfo<Gray<S16>,JImageInfo> output = wrapCriticalGrayS16(env,joutput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
             output.image.data = (S16*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
 
             // Trying to figure out why this runs slower than a C++ application
             // JNI overhead appears to be negligible based on the printed times below
@@ -59,45 +62,41 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeHoriz
             ConvolveImage::horizontal(*kernel, *border.get(),output.image);
 //            t = clock() - t;
 //            printf("horizontal time %f kernel %d\n",(float)1000*t/CLOCKS_PER_SEC,kernel->width);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else if( outputBits == 32 ) {
             ImageAndInfo<Gray<S32>,JImageInfo> output = wrapCriticalGrayS32(env,joutput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
             output.image.data = (S32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
 
             ConvolveImage::horizontal(*kernel, *border.get(),output.image);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else {
             throw std::runtime_error("Can only handle 16-bit or 32-bit integer output images currently");
         }
 
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        delete kernel;
     } else {
         if( inputBits != 32 || outputBits != 32 ) {
             throw std::runtime_error("Can only handle 32-bit floats currently");
         }
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
-        boofcv::Kernel1D<F32>* kernel = extractKernel1D_F32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<F32>> kernel(extractKernel1D_F32(env,jkernel));
         std::shared_ptr<ImageBorder<F32>> border = FactoryImageBorder::create_SB<F32>(borderType);
         border.get()->setImage(input.image);
 
         input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
         output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
 
         ConvolveImage::horizontal(*kernel, *border.get(),output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     }
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeVertical(
-    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput, jint jborderType ) {
+    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput, jint jborderType ) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -110,7 +109,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeVerti
     if( isInteger ) {
         if( inputBits != 8 )
             throw std::runtime_error("Can only handle 8-bit input integer images currently");
-        boofcv::Kernel1D<S32>* kernel = extractKernel1D_S32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<S32>> kernel(extractKernel1D_S32(env,jkernel));
         std::shared_ptr<ImageBorder<U8>> border = FactoryImageBorder::create_SB<U8>(borderType);
 
         ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
@@ -119,48 +118,46 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeVerti
         if( outputBits == 16 ) {
             ImageAndInfo<Gray<S16>,JImageInfo> output = wrapCriticalGrayS16(env,joutput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
             output.image.data = (S16*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
 
             ConvolveImage::vertical(*kernel, *border.get(),output.image);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else if( outputBits == 32 ) {
             ImageAndInfo<Gray<S32>,JImageInfo> output = wrapCriticalGrayS32(env,joutput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
             output.image.data = (S32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
 
             ConvolveImage::vertical(*kernel, *border.get(),output.image);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else {
             throw std::runtime_error("Can only handle 16-bit or 32-bit integer output currently");
         }
 
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        delete kernel;
     } else {
         if( inputBits != 32 || outputBits != 32 ) {
             throw std::runtime_error("Can only handle 32-bit floats currently");
         }
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
-        boofcv::Kernel1D<F32>* kernel = extractKernel1D_F32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<F32>> kernel(extractKernel1D_F32(env,jkernel));
         std::shared_ptr<ImageBorder<F32>> border = FactoryImageBorder::create_SB<F32>(borderType);
         border.get()->setImage(input.image);
 
         input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
         output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
 
         ConvolveImage::vertical(*kernel, *border.get(),output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     }
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeConvolve(
-    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput, jint jborderType ) {
+    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput, jint jborderType ) try {
 
    jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -173,7 +170,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeConvo
     if( isInteger ) {
         if( inputBits != 8 )
             throw std::runtime_error("Can only handle 8-bit input integer images currently");
-        boofcv::Kernel2D<S32>* kernel = extractKernel2D_S32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel2D<S32>> kernel(extractKernel2D_S32(env,jkernel));
         std::shared_ptr<ImageBorder<U8>> border = FactoryImageBorder::create_SB<U8>(borderType);
 
         ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
@@ -182,44 +179,42 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeConvo
         if( outputBits == 16 ) {
             ImageAndInfo<Gray<S16>,JImageInfo> output = wrapCriticalGrayS16(env,joutput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
             output.image.data = (S16*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
 
             ConvolveImage::convolve(*kernel, *border.get(),output.image);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else if( outputBits == 32 ) {
             ImageAndInfo<Gray<S32>,JImageInfo> output = wrapCriticalGrayS32(env,joutput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+            ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
             output.image.data = (S32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
 
             ConvolveImage::convolve(*kernel, *border.get(),output.image);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else {
             throw std::runtime_error("Can only handle 16-bit or 32-bit integer output images currently");
         }
 
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        delete kernel;
     } else {
         if( inputBits != 32 || outputBits != 32 ) {
             throw std::runtime_error("Can only handle 32-bit floats currently");
         }
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
-        boofcv::Kernel2D<F32>* kernel = extractKernel2D_F32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel2D<F32>> kernel(extractKernel2D_F32(env,jkernel));
         std::shared_ptr<ImageBorder<F32>> border = FactoryImageBorder::create_SB<F32>(borderType);
         border.get()->setImage(input.image);
 
         input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
         output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
 
         ConvolveImage::convolve(*kernel, *border.get(),output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     }
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 
diff --git a/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp b/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp
index d5ddc2c..3102e3f 100644
--- a/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp
@@ -3,12 +3,13 @@
 #include "JNIBoofCPP.h"
 
 #include <stdio.h>
+#include <memory>
 
 using namespace boofcv;
 
 extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_nativehorizontal(
-    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput ) {
+    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput ) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -17,34 +18,32 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_n
     if( isInteger ) {
         ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
         ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
-        boofcv::Kernel1D<S32>* kernel = extractKernel1D_S32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<S32>> kernel(extractKernel1D_S32(env,jkernel));
 
         input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
         output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
 
         ConvolveNormalized::horizontal(*kernel, input.image,output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     } else {
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
-        boofcv::Kernel1D<F32>* kernel = extractKernel1D_F32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<F32>> kernel(extractKernel1D_F32(env,jkernel));
 
         input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
         output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
 
         ConvolveNormalized::horizontal(*kernel, input.image,output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     }
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_nativevertical(
-    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput ) {
+    JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput ) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -53,30 +52,28 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_n
     if( isInteger ) {
         ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
         ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
-        boofcv::Kernel1D<S32>* kernel = extractKernel1D_S32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<S32>> kernel(extractKernel1D_S32(env,jkernel));
 
         input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
         output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
 
         ConvolveNormalized::vertical(*kernel, input.image,output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     } else {
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
-        boofcv::Kernel1D<F32>* kernel = extractKernel1D_F32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<F32>> kernel(extractKernel1D_F32(env,jkernel));
 
         input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
         output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
 
         ConvolveNormalized::vertical(*kernel, input.image,output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     }
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp b/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
index 4d13ec6..2e25c6e 100644
--- a/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
@@ -63,22 +63,19 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeprocess
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
             ((InputToBinary<Gray<U8>>*)nativePtr)->process(input.image, output.image);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
             ((InputToBinary<Gray<F32>> *)nativePtr)->process(input.image, output.image);
         }
     } catch( ... ) {
-        printf("Exception!!\n");
-        // TODO do something here
+        throw_java_exception(env);
     }
-
-    // Release the arrays
-    if( output.image.data != nullptr )
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
-- 
2.43.0


From 8f547d3526b3bb5fa95cbdc00b512a2b37e5f3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:48 +0000
Subject: [PATCH 29/50] fix: Java blur and convolution classes kept the image
 type of a call in fields shared by all threads

---
 .../boofcpp/convolve/NativeConvolveImage.java  | 18 ++++++++++++------
 .../boofcpp/convolve/NativeImageBlurOps.java   | 12 ++++++++----
 .../NativeImageConvolveNormalized.java         | 18 +++++++++++-------
 3 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeConvolveImage.java b/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeConvolveImage.java
index 5b7f753..c4a526d 100644
--- a/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeConvolveImage.java
+++ b/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeConvolveImage.java
@@ -20,33 +20,39 @@ public class NativeConvolveImage extends NativeBase implements
     public void convolve(Kernel2D kernel, ImageBase input, ImageBase output, ImageBorder border) {
         if( input.getImageType().getFamily() != ImageType.Family.GRAY )
             throw new RuntimeException("Only supports gray images");
-        setImageType(input.imageType.getImageClass(), output.imageType.getImageClass());
+        // the types are read from the object by the native code. This one might be in use by another thread
+        NativeConvolveImage call = new NativeConvolveImage();
+        call.setImageType(input.imageType.getImageClass(), output.imageType.getImageClass());
 
         output.reshape(input.width,input.height);
 
-        nativeConvolve(kernel,input,output,borderToType(border).ordinal());
+        call.nativeConvolve(kernel,input,output,borderToType(border).ordinal());
     }
 
     @Override
     public void horizontal(Kernel1D kernel, ImageBase input, ImageBase output, ImageBorder border) {
         if( input.getImageType().getFamily() != ImageType.Family.GRAY )
             throw new RuntimeException("Only supports gray images");
-        setImageType(input.imageType.getImageClass(), output.imageType.getImageClass());
+        // the types are read from the object by the native code. This one might be in use by another thread
+        NativeConvolveImage call = new NativeConvolveImage();
+        call.setImageType(input.imageType.getImageClass(), output.imageType.getImageClass());
 
         output.reshape(input.width,input.height);
 
-        nativeHorizontal(kernel,input,output,borderToType(border).ordinal());
+        call.nativeHorizontal(kernel,input,output,borderToType(border).ordinal());
     }
 
     @Override
     public void vertical(Kernel1D kernel, ImageBase input, ImageBase output, ImageBorder border) {
         if( input.getImageType().getFamily() != ImageType.Family.GRAY )
             throw new RuntimeException("Only supports gray images");
-        setImageType(input.imageType.getImageClass(), output.imageType.getImageClass());
+        // the types are read from the object by the native code. This one might be in use by another thread
+        NativeConvolveImage call = new NativeConvolveImage();
+        call.setImageType(input.imageType.getImageClass(), output.imageType.getImageClass());
 
         output.reshape(input.width,input.height);
 
-        nativeVertical(kernel,input,output,borderToType(border).ordinal());
+        call.nativeVertical(kernel,input,output,borderToType(border).ordinal());
     }
 
     public native void nativeConvolve( Kernel2D kernel, ImageBase input, ImageBase output, int borderType );
diff --git a/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeImageBlurOps.java b/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeImageBlurOps.java
index ee9da83..5424395 100644
--- a/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeImageBlurOps.java
+++ b/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeImageBlurOps.java
@@ -22,9 +22,11 @@ public class NativeImageBlurOps<T extends ImageGray<T>> extends NativeBase<T>
         output.reshape(input.width,input.height);
         storage = InputSanityCheck.checkDeclare(input,storage);
 
-        setImageType(input.imageType.getImageClass());
+        // the types are read from the object by the native code. This one might be in use by another thread
+        NativeImageBlurOps<T> call = new NativeImageBlurOps<>();
+        call.setImageType(input.imageType.getImageClass());
 
-        nativeMean(input,output,radius,storage);
+        call.nativeMean(input,output,radius,storage);
     }
 
     public native void nativeMean( T input, T output, int radius , T storage );
@@ -37,9 +39,11 @@ public class NativeImageBlurOps<T extends ImageGray<T>> extends NativeBase<T>
         output.reshape(input.width,input.height);
         storage = InputSanityCheck.checkDeclare(input,storage);
 
-        setImageType(input.imageType.getImageClass());
+        // the types are read from the object by the native code. This one might be in use by another thread
+        NativeImageBlurOps<T> call = new NativeImageBlurOps<>();
+        call.setImageType(input.imageType.getImageClass());
 
-        nativeGaussian(input,output,sigma,radius,storage);
+        call.nativeGaussian(input,output,sigma,radius,storage);
     }
 
     public native void nativeGaussian( T input, T output, double sigma, int radius , T storage );
diff --git a/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeImageConvolveNormalized.java b/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeImageConvolveNormalized.java
index f92f934..aaaef6a 100644
--- a/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeImageConvolveNormalized.java
+++ b/boofcpp-jni/src/main/java/org/boofcpp/convolve/NativeImageConvolveNormalized.java
@@ -13,23 +13,27 @@ public class NativeImageConvolveNormalized extends NativeBase
         BOverrideConvolveImageNormalized.Vertical,
         BOverrideConvolveImageNormalized.Convolve
 {
-    private RuntimeException notSupported = new RuntimeException("Only gray images supported");
+    private static final String notSupported = "Only gray images supported";
 
     @Override
     public void horizontal(Kernel1D kernel, ImageBase input, ImageBase output) {
         if( input.getImageType().getFamily() != ImageType.Family.GRAY )
-            throw notSupported;
-        setImageType(input.imageType.getImageClass());
-        nativehorizontal(kernel, input, output);
+            throw new RuntimeException(notSupported);
+        // the types are read from the object by the native code. This one might be in use by another thread
+        NativeImageConvolveNormalized call = new NativeImageConvolveNormalized();
+        call.setImageType(input.imageType.getImageClass());
+        call.nativehorizontal(kernel, input, output);
     }
     public native void nativehorizontal( Kernel1D kernel, ImageBase input, ImageBase output );
 
     @Override
     public void vertical(Kernel1D kernel, ImageBase input, ImageBase output) {
         if( input.getImageType().getFamily() != ImageType.Family.GRAY )
-            throw notSupported;
-        setImageType(input.imageType.getImageClass());
-        nativevertical(kernel, input, output);
+            throw new RuntimeException(notSupported);
+        // the types are read from the object by the native code. This one might be in use by another thread
+        NativeImageConvolveNormalized call = new NativeImageConvolveNormalized();
+        call.setImageType(input.imageType.getImageClass());
+        call.nativevertical(kernel, input, output);
     }
 
     public native void nativevertical( Kernel1D kernel, ImageBase input, ImageBase output );
-- 
2.43.0


From 48f1159dc62ecbd3dbb2f2b08242acfa159559e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:32 +0000
Subject: [PATCH 30/50] fix: Java local references of contour finding grew with
 the number of contours

---
 boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
index 860b4e5..1801a2e 100644
--- a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
+++ b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
@@ -84,6 +84,7 @@ void WrapJGrowQueue_I32::resize( uint32_t desired ) {
 
     // See if the array has been resized
     if( desired > this->array_length ) {
+        env->DeleteLocalRef(this->array_object);
         this->array_object = (jarray) env->GetObjectField(jobj, fid_data);
         if (array_object == nullptr) {
             throw std::runtime_error("array object is null");
@@ -128,6 +129,8 @@ void copy_into_java( JNIEnv *env,
             array_dst[j*2+1] = array_src[j].y;
         }
         env->ReleasePrimitiveArrayCritical((jarray)the_array, array_dst, 0);
+        // there's only room for so many local references
+        env->DeleteLocalRef(the_array);
     }
 
     jclass class_blockindexlength = env->FindClass("boofcv/struct/BlockIndexLength");
-- 
2.43.0


From 41de9176434e7251c0d0094382ead7e0b4016d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:54 +0000
Subject: [PATCH 31/50] fix: running out of memory while an image grows left it
 pointing at freed memory

---
 boofcpp/src/boofcv/image_types.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index e1c5b61..38f6902 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -167,8 +167,10 @@ namespace boofcv {
 
             uint32_t desired_length = width*height;
             if( desired_length > this->data_length ) {
+                // if there's not enough memory the image keeps its shape and data
+                T* tmp = new T[desired_length]();
                 delete []this->data;
-                this->data = new T[desired_length]();
+                this->data = tmp;
                 this->data_length = desired_length;
             }
             this->width = width;
@@ -426,8 +428,10 @@ namespace boofcv {
                 if( this->subimage ) {
                     throw invalid_argument("Grow the data array in a subimage");
                 }
+                // if there's not enough memory the image keeps its shape and data
+                T* tmp = new T[new_length]();
                 delete []data;
-                data = new T[new_length]();
+                data = tmp;
                 this->data_length = new_length;
             }
 
@@ -446,8 +450,10 @@ namespace boofcv {
 
             uint32_t desired_length = width*height*this->num_bands;
             if( desired_length > this->data_length ) {
+                // if there's not enough memory the image keeps its shape and data
+                T* tmp = new T[desired_length]();
                 delete []data;
-                this->data = new T[desired_length]();
+                this->data = tmp;
                 this->data_length = desired_length;
             }
             this->width = width;
@@ -477,8 +483,10 @@ namespace boofcv {
                 if( this->subimage ) {
                     throw invalid_argument("Grow the data array in a subimage");
                 }
+                // if there's not enough memory the image keeps its shape and data
+                T* tmp = new T[new_length]();
                 delete []data;
-                data = new T[new_length]();
+                data = tmp;
                 this->data_length = new_length;
             }
             this->num_bands = desired;
-- 
2.43.0


From b9fb89bba685053109be9bce02dee925f61c2468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:54 +0000
Subject: [PATCH 32/50] fix: running out of memory in GrowArray::grow_array
 left it pointing at freed memory

---
 boofcpp/src/boofcv/base_types.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/base_types.h b/boofcpp/src/boofcv/base_types.h
index 0e4cf6f..c9e8779 100644
--- a/boofcpp/src/boofcv/base_types.h
+++ b/boofcpp/src/boofcv/base_types.h
@@ -135,8 +135,10 @@ namespace boofcv {
             if( !can_resize )
                 throw std::invalid_argument("Can't resize array");
             if( new_size > array_length ) {
+                // if there's not enough memory the array is left as it was
+                auto *tmp = new T[new_size];
                 delete []this->data;
-                this->data = new T[new_size];
+                this->data = tmp;
                 this->array_length = new_size;
                 std::fill(this->data,this->data+new_size,default_value);
             }
-- 
2.43.0


From 2ac6871d2c3c1c483294479807dc2b4af2217bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:54 +0000
Subject: [PATCH 33/50] fix: running out of memory while a Planar image gets
 its bands leaked the bands made so far

---
 boofcpp/src/boofcv/image_types.h | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 38f6902..8ffdd90 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -250,10 +250,19 @@ namespace boofcv {
             this->stride = width;
             this->subimage = false;
 
-            this->num_bands = num_bands;
-            bands = new T*[this->num_bands];
-            for( uint32_t i = 0; i < this->num_bands; i++ ) {
-                bands[i] = new T(width,height);
+            this->num_bands = 0;
+            bands = new T*[num_bands];
+            try {
+                for( ; this->num_bands < num_bands; this->num_bands++ ) {
+                    bands[this->num_bands] = new T(width,height);
+                }
+            } catch( ... ) {
+                // the destructor isn't called
+                for( uint32_t i = 0; i < this->num_bands; i++ ) {
+                    delete bands[i];
+                }
+                delete []bands;
+                throw;
             }
         }
 
@@ -298,8 +307,18 @@ namespace boofcv {
                 for( uint32_t i = 0; i < this->num_bands; i++ ) {
                     new_bands[i] = this->bands[i];
                 }
-                for( uint32_t i = num_bands; i < desired; i++ ) {
-                    new_bands[i] = new T(this->width,this->height);
+                uint32_t total = this->num_bands;
+                try {
+                    for( ; total < desired; total++ ) {
+                        new_bands[total] = new T(this->width,this->height);
+                    }
+                } catch( ... ) {
+                    // discard the new bands
+                    while( total > this->num_bands ) {
+                        delete new_bands[--total];
+                    }
+                    delete []new_bands;
+                    throw;
                 }
             } else if( desired < this->num_bands ) {
                 new_bands = new T*[desired];
-- 
2.43.0


From 176c23d4ea44e968f12ba351abc9e7e4403b7843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:54 +0000
Subject: [PATCH 34/50] fix: a failed Planar::reshape left bands of different
 shapes

---
 boofcpp/src/boofcv/image_types.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 8ffdd90..0631b6b 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -292,8 +292,17 @@ namespace boofcv {
             if( this->subimage ) {
                 throw invalid_argument("Can't reshape a subimage");
             }
-            for( uint32_t i = 0; i < num_bands; i++ ) {
-                bands[i]->reshape(width,height);
+            uint32_t i = 0;
+            try {
+                for( ; i < num_bands; i++ ) {
+                    bands[i]->reshape(width,height);
+                }
+            } catch( ... ) {
+                // all bands must have the same shape
+                while( i > 0 ) {
+                    bands[--i]->reshape(this->width,this->height);
+                }
+                throw;
             }
             this->width = width;
             this->height = height;
-- 
2.43.0


From 39b4ffeba82e778f70fefe709819dba14894ba9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:54 +0000
Subject: [PATCH 35/50] fix: running out of memory in PackedSet leaked its
 table of blocks

---
 boofcpp/src/boofcv/packed_sets.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/boofcpp/src/boofcv/packed_sets.h b/boofcpp/src/boofcv/packed_sets.h
index 8832050..7b80591 100644
--- a/boofcpp/src/boofcv/packed_sets.h
+++ b/boofcpp/src/boofcv/packed_sets.h
@@ -52,8 +52,11 @@ namespace boofcv {
                 _size_of_block(size_of_block) ,_number_of_blocks(1), _total_element(0)
         {
             blocks = new T*[_number_of_blocks];
-            for( uint32_t i = 0; i < _number_of_blocks; i++ ) {
-                blocks[i] = new T[_size_of_block];
+            try {
+                blocks[0] = new T[_size_of_block];
+            } catch( ... ) {
+                delete []blocks;
+                throw;
             }
         }
 
@@ -122,7 +125,12 @@ namespace boofcv {
                 for( uint32_t i = 0; i < _number_of_blocks; i++ ) {
                     tmp[i] = blocks[i];
                 }
-                tmp[_number_of_blocks] = new T[_size_of_block];
+                try {
+                    tmp[_number_of_blocks] = new T[_size_of_block];
+                } catch( ... ) {
+                    delete []tmp;
+                    throw;
+                }
                 delete []blocks;
                 this->blocks = tmp;
                 this->_number_of_blocks++;
-- 
2.43.0


From 7d75ca9dab960e5909ff5b8025afb9d320bbb64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:18 +0000
Subject: [PATCH 36/50] fix: running out of memory while a contour finder is
 created leaked its lookup tables

---
 boofcpp/src/boofcv/contour.cpp | 15 ---------------
 boofcpp/src/boofcv/contour.h   |  8 +++-----
 2 files changed, 3 insertions(+), 20 deletions(-)

diff --git a/boofcpp/src/boofcv/contour.cpp b/boofcpp/src/boofcv/contour.cpp
index caa447d..37c9fec 100644
--- a/boofcpp/src/boofcv/contour.cpp
+++ b/boofcpp/src/boofcv/contour.cpp
@@ -16,31 +16,16 @@ ContourTracer::ContourTracer(ConnectRule rule) :
     if (ConnectRule::EIGHT == rule) {
         // start the next search +2 away from the square it came from
         // the square it came from is the opposite from the previous 'dir'
-        nextDirection = new uint32_t[8];
         for (uint32_t i = 0; i < 8; i++)
             nextDirection[i] = ((i + 4) % 8 + 2) % 8;
         ruleN = 8;
     } else if (ConnectRule::FOUR == rule) {
-        nextDirection = new uint32_t[4];
         for (uint32_t i = 0; i < 4; i++)
             nextDirection[i] = ((i + 2) % 4 + 1) % 4;
         ruleN = 4;
     } else {
         throw std::invalid_argument("Connectivity rule must be 4 or 8");
     }
-
-    offsetsBinary = new int32_t[ruleN];
-    offsetsLabeled = new int32_t[ruleN];
-}
-
-ContourTracer::~ContourTracer() {
-    delete[]offsetsBinary;
-    delete[]offsetsLabeled;
-    delete[]nextDirection;
-
-    offsetsBinary = nullptr;
-    offsetsLabeled = nullptr;
-    nextDirection = nullptr;
 }
 
 /**
diff --git a/boofcpp/src/boofcv/contour.h b/boofcpp/src/boofcv/contour.h
index ca57014..4629b9b 100644
--- a/boofcpp/src/boofcv/contour.h
+++ b/boofcpp/src/boofcv/contour.h
@@ -53,10 +53,10 @@ namespace boofcv {
         uint32_t indexLabel;
 
         // the pixel index offset to each neighbor
-        int32_t *offsetsBinary;
-        int32_t *offsetsLabeled;
+        int32_t offsetsBinary[8];
+        int32_t offsetsLabeled[8];
         // lookup table for which direction it should search next given the direction it traveled into the current pixel
-        uint32_t *nextDirection;
+        uint32_t nextDirection[8];
 
         /**
          * Specifies connectivity rule
@@ -65,8 +65,6 @@ namespace boofcv {
          */
         ContourTracer( ConnectRule rule );
 
-        ~ContourTracer();
-
         /**
          *
          * @param binary Binary image with a border of zeros added to the outside.
-- 
2.43.0


From 60e0fb991e1dc83fbd07a53e9d7918744581bb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:48 +0000
Subject: [PATCH 37/50] fix: a kernel which ran out of memory in reshape or
 assignment got a width without the weights

---
 boofcpp/src/boofcv/convolve_kernels.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/boofcpp/src/boofcv/convolve_kernels.h b/boofcpp/src/boofcv/convolve_kernels.h
index c197f57..323dc04 100644
--- a/boofcpp/src/boofcv/convolve_kernels.h
+++ b/boofcpp/src/boofcv/convolve_kernels.h
@@ -124,9 +124,9 @@ namespace boofcv {
         }
 
         void reshape( uint32_t width , uint32_t offset ) override {
+            this->data.resize(width);
             this->width = width;
             this->offset = offset;
-            this->data.resize(width);
         }
 
         E& at( uint32_t index ) const {
@@ -144,9 +144,9 @@ namespace boofcv {
         Kernel1D<E>& operator=(const Kernel1D<E>& other) // copy assignment
         {
             if (this != &other) { // self-assignment check expected
+                this->data = other.data;
                 this->width = other.width;
                 this->offset = other.offset;
-                this->data = other.data;
             }
             return *this;
         }
@@ -184,9 +184,9 @@ namespace boofcv {
         }
 
         void reshape( uint32_t width , uint32_t offset ) override {
+            this->data.resize(width*width);
             this->width = width;
             this->offset = offset;
-            this->data.resize(width*width);
         }
 
         uint32_t dimension() const override  {
@@ -202,9 +202,9 @@ namespace boofcv {
         Kernel2D<E>& operator=(const Kernel2D<E>& other) // copy assignment
         {
             if (this != &other) { // self-assignment check expected
+                this->data = other.data;
                 this->width = other.width;
                 this->offset = other.offset;
-                this->data = other.data;
             }
             return *this;
         }
-- 
2.43.0


From 3d509664025b4d43725ed2551d57add76242b754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:38 +0000
Subject: [PATCH 38/50] fix: a native function which ran out of memory ran out
 of memory again while it told Java

---
 boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
index 1801a2e..07f4ad1 100644
--- a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
+++ b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
@@ -1,6 +1,5 @@
 #include "JNIBoofCPP.h"
 #include <stdexcept>
-#include <string>
 #include <packed_sets.h>
 
 using namespace boofcv;
@@ -151,18 +150,20 @@ void throw_java_exception( JNIEnv *env )
     if( env->ExceptionCheck() )
         return;
 
-    std::string message = "Native code failed";
+    jclass theclass = env->FindClass("java/lang/RuntimeException");
+    if( theclass == nullptr )
+        return;
+
+    // there might be no memory left, don't allocate any
     try {
         throw;
     } catch( const std::exception& e ) {
-        message = e.what();
+        env->ThrowNew(theclass,e.what());
     } catch( const char* e ) {
-        message = e;
-    } catch( ... ) {}
-
-    jclass theclass = env->FindClass("java/lang/RuntimeException");
-    if( theclass != nullptr )
-        env->ThrowNew(theclass,message.c_str());
+        env->ThrowNew(theclass,e);
+    } catch( ... ) {
+        env->ThrowNew(theclass,"Native code failed");
+    }
 }
 
 jclass safe_FindClass( JNIEnv *env, const char* name )
-- 
2.43.0


From 8d0973fc755a0b72f8c9c0183ec333b0e8ab4684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:38 +0000
Subject: [PATCH 39/50] fix: C++ exceptions left the native functions which
 create, use and destroy thresholds

---
 boofcpp-jni/src/main/cpp/NativeBlockMean.cpp  | 48 ++++++++++---------
 .../src/main/cpp/NativeBlockMinMax.cpp        | 48 ++++++++++---------
 boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp  | 48 ++++++++++---------
 .../src/main/cpp/NativeGlobalFixed.cpp        | 48 ++++++++++---------
 boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp | 48 ++++++++++---------
 boofcpp-jni/src/main/cpp/NativeLocalMean.cpp  | 48 ++++++++++---------
 6 files changed, 150 insertions(+), 138 deletions(-)

diff --git a/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp b/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
index 9bbfad1..a8d6990 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
@@ -7,7 +7,7 @@ using namespace boofcv;
 
 extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeinit(
-    JNIEnv *env, jobject obj, jobject jregionWidth, jdouble scale, jboolean down , jboolean thresholdFromLocalBlocks ) {
+    JNIEnv *env, jobject obj, jobject jregionWidth, jdouble scale, jboolean down , jboolean thresholdFromLocalBlocks ) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -15,17 +15,19 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeinit(
 
     boofcv::ConfigLength region_width = extractConfigLength(env,jregionWidth);
 
+    jfieldID fid_ptr = safe_GetFieldID(env, objClass, "nativePtr", "J");
     jlong ptr;
     if( isInteger ) {
         ptr = (jlong)new ThresholdBlockMean<U8>(region_width,(bool)thresholdFromLocalBlocks,(double)scale,(bool)down);
     } else {
         ptr = (jlong)new ThresholdBlockMean<F32>(region_width,(bool)thresholdFromLocalBlocks,(double)scale,(bool)down);
     }
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
-    env->SetLongField(obj, fid, ptr);
+    env->SetLongField(obj, fid_ptr, ptr);
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
-JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativedestroy(JNIEnv *env, jobject obj) {
+JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativedestroy(JNIEnv *env, jobject obj) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -38,10 +40,12 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativedestroy(
     } else {
         delete (ThresholdBlockMean<F32> *) nativePtr;
     }
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeprocess
-    (JNIEnv *env, jobject obj, jobject jinput, jobject joutput) {
+    (JNIEnv *env, jobject obj, jobject jinput, jobject joutput) try {
 
     // Get the pointer to the thresholding algorithm
     jclass objClass = env->GetObjectClass(obj);
@@ -56,26 +60,24 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeprocess
 
     ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
 
-    try {
 //        printf("   alg.threshold %d\n",alg->threshold);
-        if( isInteger ) {
-            ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
-            ((ThresholdBlockMean<U8>*)nativePtr)->process(input.image, output.image);
-        } else {
-            ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
-            input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
-            ((ThresholdBlockMean<F32> *)nativePtr)->process(input.image, output.image);
-        }
-    } catch( ... ) {
-        throw_java_exception(env);
+    if( isInteger ) {
+        ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
+        input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
+        output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
+        ((ThresholdBlockMean<U8>*)nativePtr)->process(input.image, output.image);
+    } else {
+        ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
+        input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
+        output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
+        ((ThresholdBlockMean<F32> *)nativePtr)->process(input.image, output.image);
     }
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp b/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
index afe9529..d511164 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
@@ -8,7 +8,7 @@ using namespace boofcv;
 extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeinit(
     JNIEnv *env, jobject obj, jobject jregionWidth,
-    jdouble scale, jboolean down , jdouble minimumSpread, jboolean thresholdFromLocalBlocks ) {
+    jdouble scale, jboolean down , jdouble minimumSpread, jboolean thresholdFromLocalBlocks ) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -16,17 +16,19 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeinit(
 
     boofcv::ConfigLength region_width = extractConfigLength(env,jregionWidth);
 
+    jfieldID fid_ptr = safe_GetFieldID(env, objClass, "nativePtr", "J");
     jlong ptr;
     if( isInteger ) {
         ptr = (jlong)new ThresholdBlockMinMax<U8>((float)minimumSpread,region_width,(bool)thresholdFromLocalBlocks,(float)scale,(bool)down);
     } else {
         ptr = (jlong)new ThresholdBlockMinMax<F32>((float)minimumSpread,region_width,(bool)thresholdFromLocalBlocks,(float)scale,(bool)down);
     }
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
-    env->SetLongField(obj, fid, ptr);
+    env->SetLongField(obj, fid_ptr, ptr);
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
-JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativedestroy(JNIEnv *env, jobject obj) {
+JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativedestroy(JNIEnv *env, jobject obj) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -39,10 +41,12 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativedestro
     } else {
         delete (ThresholdBlockMinMax<F32> *) nativePtr;
     }
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeprocess
-    (JNIEnv *env, jobject obj, jobject jinput, jobject joutput) {
+    (JNIEnv *env, jobject obj, jobject jinput, jobject joutput) try {
 
     // Get the pointer to the thresholding algorithm
     jclass objClass = env->GetObjectClass(obj);
@@ -57,26 +61,24 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeproces
 
     ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
 
-    try {
 //        printf("   alg.threshold %d\n",alg->threshold);
-        if( isInteger ) {
-            ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
-            ((ThresholdBlockMinMax<U8>*)nativePtr)->process(input.image, output.image);
-        } else {
-            ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
-            input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
-            ((ThresholdBlockMinMax<F32> *)nativePtr)->process(input.image, output.image);
-        }
-    } catch( ... ) {
-        throw_java_exception(env);
+    if( isInteger ) {
+        ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
+        input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
+        output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
+        ((ThresholdBlockMinMax<U8>*)nativePtr)->process(input.image, output.image);
+    } else {
+        ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
+        input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
+        output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
+        ((ThresholdBlockMinMax<F32> *)nativePtr)->process(input.image, output.image);
     }
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp b/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
index 9646464..0f58f27 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
@@ -8,7 +8,7 @@ using namespace boofcv;
 extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeinit(
     JNIEnv *env, jobject obj, jboolean otsu2, jobject jregionWidth, jdouble tuning,
-    jdouble scale, jboolean down , jboolean thresholdFromLocalBlocks ) {
+    jdouble scale, jboolean down , jboolean thresholdFromLocalBlocks ) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -16,17 +16,19 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeinit(
 
     boofcv::ConfigLength region_width = extractConfigLength(env,jregionWidth);
 
+    jfieldID fid_ptr = safe_GetFieldID(env, objClass, "nativePtr", "J");
     jlong ptr;
     if( isInteger ) {
         ptr = (jlong)new ThresholdBlockOtsu<U8>((bool)otsu2,region_width,(double)tuning,(double)scale,(bool)down,(bool)thresholdFromLocalBlocks);
     } else {
         ptr = (jlong)new ThresholdBlockOtsu<F32>((bool)otsu2,region_width,(double)tuning,(double)scale,(bool)down,(bool)thresholdFromLocalBlocks);
     }
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
-    env->SetLongField(obj, fid, ptr);
+    env->SetLongField(obj, fid_ptr, ptr);
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
-JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativedestroy(JNIEnv *env, jobject obj) {
+JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativedestroy(JNIEnv *env, jobject obj) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -39,10 +41,12 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativedestroy(
     } else {
         delete (ThresholdBlockOtsu<F32> *) nativePtr;
     }
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeprocess
-    (JNIEnv *env, jobject obj, jobject jinput, jobject joutput) {
+    (JNIEnv *env, jobject obj, jobject jinput, jobject joutput) try {
 
     // Get the pointer to the thresholding algorithm
     jclass objClass = env->GetObjectClass(obj);
@@ -57,25 +61,23 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeprocess
 
     ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
 
-    try {
-        if( isInteger ) {
-            ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
-            ((ThresholdBlockOtsu<U8>*)nativePtr)->process(input.image, output.image);
-        } else {
-            ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
-            input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
-            ((ThresholdBlockOtsu<F32> *)nativePtr)->process(input.image, output.image);
-        }
-    } catch( ... ) {
-        throw_java_exception(env);
+    if( isInteger ) {
+        ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
+        input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
+        output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
+        ((ThresholdBlockOtsu<U8>*)nativePtr)->process(input.image, output.image);
+    } else {
+        ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
+        input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
+        output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
+        ((ThresholdBlockOtsu<F32> *)nativePtr)->process(input.image, output.image);
     }
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp b/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
index 818a8c1..1289dfd 100644
--- a/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
@@ -8,23 +8,25 @@ using namespace boofcv;
 // double threshold, boolean down
 extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeinit(
-    JNIEnv *env, jobject obj, jdouble threshold, jboolean down ) {
+    JNIEnv *env, jobject obj, jdouble threshold, jboolean down ) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
 
+    jfieldID fid_ptr = safe_GetFieldID(env, objClass, "nativePtr", "J");
     jlong ptr;
     if( isInteger ) {
         ptr = (jlong)new GlobalFixedBinaryFilter<U8>((U8)threshold, (bool)down);
     } else {
         ptr = (jlong)new GlobalFixedBinaryFilter<F32>((float)threshold, (bool)down);
     }
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
-    env->SetLongField(obj, fid, ptr);
+    env->SetLongField(obj, fid_ptr, ptr);
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
-JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativedestroy(JNIEnv *env, jobject obj) {
+JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativedestroy(JNIEnv *env, jobject obj) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -37,10 +39,12 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativedestro
     } else {
         delete (GlobalFixedBinaryFilter<F32> *) nativePtr;
     }
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeprocess
-    (JNIEnv *env, jobject obj, jobject jinput, jobject joutput) {
+    (JNIEnv *env, jobject obj, jobject jinput, jobject joutput) try {
 
     // Get the pointer to the thresholding algorithm
     jclass objClass = env->GetObjectClass(obj);
@@ -55,26 +59,24 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeproces
 
     ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
 
-    try {
 //        printf("   alg.threshold %d\n",alg->threshold);
-        if( isInteger ) {
-            ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
-            ((GlobalFixedBinaryFilter<U8>*)nativePtr)->process(input.image, output.image);
-        } else {
-            ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
-            input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
-            ((GlobalFixedBinaryFilter<F32> *)nativePtr)->process(input.image, output.image);
-        }
-    } catch( ... ) {
-        throw_java_exception(env);
+    if( isInteger ) {
+        ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
+        input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
+        output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
+        ((GlobalFixedBinaryFilter<U8>*)nativePtr)->process(input.image, output.image);
+    } else {
+        ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
+        input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
+        output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
+        ((GlobalFixedBinaryFilter<F32> *)nativePtr)->process(input.image, output.image);
     }
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp b/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
index eca3204..2957f81 100644
--- a/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
@@ -6,22 +6,24 @@ using namespace boofcv;
 
 extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeinit(
-    JNIEnv *env, jobject obj, jdouble minValue, jdouble maxValue, jboolean down ) {
+    JNIEnv *env, jobject obj, jdouble minValue, jdouble maxValue, jboolean down ) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
+    jfieldID fid_ptr = safe_GetFieldID(env, objClass, "nativePtr", "J");
     jlong ptr;
     if( isInteger ) {
         ptr = (jlong)new GlobalOtsuBinaryFilter<U8>((U8)minValue,(U8)maxValue, (bool) down);
     } else {
         ptr = (jlong)new GlobalOtsuBinaryFilter<F32>((F32)minValue,(F32)maxValue, (bool) down);
     }
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
-    env->SetLongField(obj, fid, ptr);
+    env->SetLongField(obj, fid_ptr, ptr);
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
-JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativedestroy(JNIEnv *env, jobject obj) {
+JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativedestroy(JNIEnv *env, jobject obj) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -34,10 +36,12 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativedestroy
     } else {
         delete (GlobalOtsuBinaryFilter<F32> *) nativePtr;
     }
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeprocess
-    (JNIEnv *env, jobject obj, jobject jinput, jobject joutput) {
+    (JNIEnv *env, jobject obj, jobject jinput, jobject joutput) try {
 
     // Get the pointer to the thresholding algorithm
     jclass objClass = env->GetObjectClass(obj);
@@ -52,26 +56,24 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeprocess
 
     ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
 
-    try {
 //        printf("   alg.threshold %d\n",alg->threshold);
-        if( isInteger ) {
-            ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
-            ((GlobalOtsuBinaryFilter<U8>*)nativePtr)->process(input.image, output.image);
-        } else {
-            ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
-            input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
-            ((GlobalOtsuBinaryFilter<F32> *)nativePtr)->process(input.image, output.image);
-        }
-    } catch( ... ) {
-        throw_java_exception(env);
+    if( isInteger ) {
+        ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
+        input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
+        output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
+        ((GlobalOtsuBinaryFilter<U8>*)nativePtr)->process(input.image, output.image);
+    } else {
+        ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
+        input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
+        output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
+        ((GlobalOtsuBinaryFilter<F32> *)nativePtr)->process(input.image, output.image);
     }
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp b/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
index 2e25c6e..82498f0 100644
--- a/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
@@ -7,7 +7,7 @@ using namespace boofcv;
 
 extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeinit(
-    JNIEnv *env, jobject obj, jobject jregionWidth, jdouble scale, jboolean down ) {
+    JNIEnv *env, jobject obj, jobject jregionWidth, jdouble scale, jboolean down ) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -15,17 +15,19 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeinit(
 
     boofcv::ConfigLength region_width = extractConfigLength(env,jregionWidth);
 
+    jfieldID fid_ptr = safe_GetFieldID(env, objClass, "nativePtr", "J");
     jlong ptr;
     if( isInteger ) {
         ptr = (jlong)new LocalMeanBinaryFilter<U8>(region_width,(double)scale,(bool)down);
     } else {
         ptr = (jlong)new LocalMeanBinaryFilter<F32>(region_width,(double)scale,(bool)down);
     }
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
-    env->SetLongField(obj, fid, ptr);
+    env->SetLongField(obj, fid_ptr, ptr);
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
-JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativedestroy(JNIEnv *env, jobject obj) {
+JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativedestroy(JNIEnv *env, jobject obj) try {
 
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
@@ -38,10 +40,12 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativedestroy(
     } else {
         delete (LocalMeanBinaryFilter<F32> *) nativePtr;
     }
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeprocess
-    (JNIEnv *env, jobject obj, jobject jinput, jobject joutput) {
+    (JNIEnv *env, jobject obj, jobject jinput, jobject joutput) try {
 
     // Get the pointer to the thresholding algorithm
     jclass objClass = env->GetObjectClass(obj);
@@ -56,26 +60,24 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeprocess
 
     ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
 
-    try {
 //        printf("   alg.threshold %d\n",alg->threshold);
-        if( isInteger ) {
-            ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
-            ((InputToBinary<Gray<U8>>*)nativePtr)->process(input.image, output.image);
-        } else {
-            ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
-            input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
-            output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
-            ((InputToBinary<Gray<F32>> *)nativePtr)->process(input.image, output.image);
-        }
-    } catch( ... ) {
-        throw_java_exception(env);
+    if( isInteger ) {
+        ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
+        input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
+        output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
+        ((InputToBinary<Gray<U8>>*)nativePtr)->process(input.image, output.image);
+    } else {
+        ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
+        input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
+        output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        ScopedCriticalOutput release_output(env, output.info.jdata, output.image.data);
+        ((InputToBinary<Gray<F32>> *)nativePtr)->process(input.image, output.image);
     }
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 }
\ No newline at end of file
-- 
2.43.0


From 6007ff899f343c5248919f46caa686b444708ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:38 +0000
Subject: [PATCH 40/50] fix: C++ exceptions left the native functions of the
 contour finder

---
 boofcpp-jni/src/main/cpp/NativeChang2004.cpp | 75 ++++++++++++--------
 1 file changed, 46 insertions(+), 29 deletions(-)

diff --git a/boofcpp-jni/src/main/cpp/NativeChang2004.cpp b/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
index 315a8e6..31f64d1 100644
--- a/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
@@ -10,20 +10,21 @@ using namespace boofcv;
 extern "C" {
 
 JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1init
-        (JNIEnv *env, jobject obj)
-{
+        (JNIEnv *env, jobject obj) try {
     jclass objClass = env->GetObjectClass(obj);
 
+    jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
+
     LinearContourLabelChang2004* ptr = new LinearContourLabelChang2004(ConnectRule::FOUR);
     ptr->maxContourSize = 0x7fffffff; // Java's max is a signed int
 
-    jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     env->SetLongField(obj, fid, (jlong)ptr);
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1destroy
-        (JNIEnv *env, jobject obj)
-{
+        (JNIEnv *env, jobject obj) try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "nativePtr", "J");
     jlong nativePtr = env->GetLongField(obj, fid);
@@ -31,11 +32,12 @@ JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1destroy
     delete (LinearContourLabelChang2004*) nativePtr;
 
     env->SetLongField(obj, fid, 0);
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1process
-        (JNIEnv *env, jobject obj, jobject jbinary, jobject jlabel)
-{
+        (JNIEnv *env, jobject obj, jobject jbinary, jobject jlabel) try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     LinearContourLabelChang2004* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
@@ -43,13 +45,14 @@ JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1process
     ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jbinary);
     ImageAndInfo<Gray<S32>,JImageInfo> label = wrapCriticalGrayS32(env,jlabel);
 
-    input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-    label.image.data = (S32*)env->GetPrimitiveArrayCritical((jarray)label.info.jdata, 0);
+    {
+        input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
+        ScopedCriticalInput release_input(env, input.info.jdata, input.image.data);
+        label.image.data = (S32*)env->GetPrimitiveArrayCritical((jarray)label.info.jdata, 0);
+        ScopedCriticalOutput release_label(env, label.info.jdata, label.image.data);
 
-    contour->process(input.image, label.image);
-
-    env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-    env->ReleasePrimitiveArrayCritical((jarray)label.info.jdata, label.image.data, 0);
+        contour->process(input.image, label.image);
+    }
 
     jfieldID fidPoints = safe_GetFieldID(env, objClass, "storagePoints", "Lorg/ddogleg/struct/GrowQueue_I32;");
     jobject jpoints = env->GetObjectField(obj,fidPoints);
@@ -70,71 +73,81 @@ JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1process
     copy_into_java(env,contour->packedPoints,jpacked);
 
     // TODO storageContours
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_setSaveInnerContour
-        (JNIEnv *env, jobject obj, jboolean enabled)
-{
+        (JNIEnv *env, jobject obj, jboolean enabled) try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
     auto * contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
 
     contour->saveInternalContours = enabled;
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT jboolean JNICALL Java_org_boofcpp_contour_NativeChang2004_isSaveInternalContours
-        (JNIEnv *env, jobject obj)
-{
+        (JNIEnv *env, jobject obj) try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     auto * contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
 
     return (jboolean)contour->saveInternalContours;
+} catch( ... ) {
+    throw_java_exception(env);
+    return 0;
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_setMinContour
-        (JNIEnv *env, jobject obj, jint size)
-{
+        (JNIEnv *env, jobject obj, jint size) try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
     auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
 
     contour->minContourSize = static_cast<uint32_t>(size);
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT jint JNICALL Java_org_boofcpp_contour_NativeChang2004_getMinContour
-        (JNIEnv *env, jobject obj)
-{
+        (JNIEnv *env, jobject obj) try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
 
     return static_cast<jint>(contour->minContourSize);
+} catch( ... ) {
+    throw_java_exception(env);
+    return 0;
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_setMaxContour
-        (JNIEnv *env, jobject obj, jint size)
-{
+        (JNIEnv *env, jobject obj, jint size) try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env,objClass, "nativePtr", "J");
     auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
 
     contour->maxContourSize = static_cast<uint32_t>(size);
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT jint JNICALL Java_org_boofcpp_contour_NativeChang2004_getMaxContour
-        (JNIEnv *env, jobject obj)
-{
+        (JNIEnv *env, jobject obj) try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
     auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
 
     return static_cast<jint>(contour->maxContourSize);
+} catch( ... ) {
+    throw_java_exception(env);
+    return 0;
 }
 
 JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_setConnectRule
-        (JNIEnv *env, jobject obj, jobject jrule )
-{
+        (JNIEnv *env, jobject obj, jobject jrule ) try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
     auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
@@ -156,11 +169,12 @@ JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_setConnectRule
             throw "Unknown connect rule";
     }
 
+} catch( ... ) {
+    throw_java_exception(env);
 }
 
 JNIEXPORT jobject JNICALL Java_org_boofcpp_contour_NativeChang2004_getConnectRule
-        (JNIEnv *env, jobject obj)
-{
+        (JNIEnv *env, jobject obj) try {
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = env->GetFieldID(objClass, "nativePtr", "J");
     auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
@@ -185,5 +199,8 @@ JNIEXPORT jobject JNICALL Java_org_boofcpp_contour_NativeChang2004_getConnectRul
         throw "Could lookup static field";
     }
     return ret;
+} catch( ... ) {
+    throw_java_exception(env);
+    return nullptr;
 }
 }
\ No newline at end of file
-- 
2.43.0


From 4b8a843288008a0c91c4670d3e3b59f5cdd753da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:38 +0000
Subject: [PATCH 41/50] fix: a kernel from Java and its weights were lost when
 there was no memory for their copy

---
 boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp | 45 ++++++++++---------------
 1 file changed, 17 insertions(+), 28 deletions(-)

diff --git a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
index 07f4ad1..80feb22 100644
--- a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
+++ b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
@@ -1,4 +1,5 @@
 #include "JNIBoofCPP.h"
+#include <memory>
 #include <stdexcept>
 #include <packed_sets.h>
 
@@ -396,18 +397,15 @@ boofcv::Kernel1D<S32>* extractKernel1D_S32( JNIEnv *env, jobject& jkernel ) {
 
     jfieldID fid = env->GetFieldID(objClass, "data", "[I");
     jobject  jarray = env->GetObjectField (jkernel, fid);
-    jint* data = env->GetIntArrayElements((jintArray)jarray, 0);
     jint length = env->GetArrayLength((jintArray)jarray);
 
     // copy the Java array into the kernel
-    auto kernel1D = new boofcv::Kernel1D<S32>((uint32_t)width,(uint32_t)offset);
-    kernel1D->data.set((S32*)data,(uint32_t)length);
-
-    // release java objects
-    env->ReleaseIntArrayElements((jintArray)jarray, data, 0);
+    std::unique_ptr<boofcv::Kernel1D<S32>> kernel1D(new boofcv::Kernel1D<S32>((uint32_t)width,(uint32_t)offset));
+    kernel1D->data.resize((uint32_t)length);
+    env->GetIntArrayRegion((jintArray)jarray, 0, length, (jint*)kernel1D->data.data);
 
     // return the results
-    return kernel1D;
+    return kernel1D.release();
 }
 
 boofcv::Kernel1D<F32>* extractKernel1D_F32( JNIEnv *env, jobject& jkernel ) {
@@ -417,18 +415,15 @@ boofcv::Kernel1D<F32>* extractKernel1D_F32( JNIEnv *env, jobject& jkernel ) {
 
     jfieldID fid = env->GetFieldID(objClass, "data", "[F");
     jobject  jarray = env->GetObjectField (jkernel, fid);
-    jfloat* data = env->GetFloatArrayElements((jfloatArray)jarray, 0);
     jint length = env->GetArrayLength((jfloatArray)jarray);
 
     // copy the Java array into the kernel
-    auto kernel1D = new boofcv::Kernel1D<F32>((uint32_t)width,(uint32_t)offset);
-    kernel1D->data.set((F32*)data,(uint32_t)length);
-
-    // release java objects
-    env->ReleaseFloatArrayElements((jfloatArray)jarray, data, 0);
+    std::unique_ptr<boofcv::Kernel1D<F32>> kernel1D(new boofcv::Kernel1D<F32>((uint32_t)width,(uint32_t)offset));
+    kernel1D->data.resize((uint32_t)length);
+    env->GetFloatArrayRegion((jfloatArray)jarray, 0, length, (jfloat*)kernel1D->data.data);
 
     // return the results
-    return kernel1D;
+    return kernel1D.release();
 }
 
 boofcv::Kernel2D<boofcv::S32>* extractKernel2D_S32( JNIEnv *env, jobject& jkernel ) {
@@ -438,18 +433,15 @@ boofcv::Kernel2D<boofcv::S32>* extractKernel2D_S32( JNIEnv *env, jobject& jkerne
 
     jfieldID fid = env->GetFieldID(objClass, "data", "[I");
     jobject  jarray = env->GetObjectField (jkernel, fid);
-    jint* data = env->GetIntArrayElements((jintArray)jarray, 0);
     jint length = env->GetArrayLength((jintArray)jarray);
 
     // copy the Java array into the kernel
-    auto kernel2D = new boofcv::Kernel2D<S32>((uint32_t)width,(uint32_t)offset);
-    kernel2D->data.set((S32*)data,(uint32_t)length);
-
-    // release java objects
-    env->ReleaseIntArrayElements((jintArray)jarray, data, 0);
+    std::unique_ptr<boofcv::Kernel2D<S32>> kernel2D(new boofcv::Kernel2D<S32>((uint32_t)width,(uint32_t)offset));
+    kernel2D->data.resize((uint32_t)length);
+    env->GetIntArrayRegion((jintArray)jarray, 0, length, (jint*)kernel2D->data.data);
 
     // return the results
-    return kernel2D;
+    return kernel2D.release();
 }
 
 boofcv::Kernel2D<boofcv::F32>* extractKernel2D_F32( JNIEnv *env, jobject& jkernel ) {
@@ -459,16 +451,13 @@ boofcv::Kernel2D<boofcv::F32>* extractKernel2D_F32( JNIEnv *env, jobject& jkerne
 
     jfieldID fid = env->GetFieldID(objClass, "data", "[F");
     jobject  jarray = env->GetObjectField (jkernel, fid);
-    jfloat* data = env->GetFloatArrayElements((jfloatArray)jarray, 0);
     jint length = env->GetArrayLength((jfloatArray)jarray);
 
     // copy the Java array into the kernel
-    auto kernel2D = new boofcv::Kernel2D<F32>((uint32_t)width,(uint32_t)offset);
-    kernel2D->data.set((F32*)data,(uint32_t)length);
-
-    // release java objects
-    env->ReleaseFloatArrayElements((jfloatArray)jarray, data, 0);
+    std::unique_ptr<boofcv::Kernel2D<F32>> kernel2D(new boofcv::Kernel2D<F32>((uint32_t)width,(uint32_t)offset));
+    kernel2D->data.resize((uint32_t)length);
+    env->GetFloatArrayRegion((jfloatArray)jarray, 0, length, (jfloat*)kernel2D->data.data);
 
     // return the results
-    return kernel2D;
+    return kernel2D.release();
 }
-- 
2.43.0


From ea14703858ecb9b4916614ff85b313d427db9ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:38 +0000
Subject: [PATCH 42/50] fix: native functions went on without the field which
 they could not find

---
 boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp       | 26 +++++--------------
 boofcpp-jni/src/main/cpp/NativeBlockMean.cpp  | 10 +++----
 .../src/main/cpp/NativeBlockMinMax.cpp        | 10 +++----
 boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp  | 10 +++----
 boofcpp-jni/src/main/cpp/NativeChang2004.cpp  |  4 +--
 .../src/main/cpp/NativeGlobalFixed.cpp        | 10 +++----
 boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp | 10 +++----
 .../src/main/cpp/NativeImageBlurOps.cpp       |  4 +--
 .../src/main/cpp/NativeImageConvolve.cpp      |  6 ++---
 .../cpp/NativeImageConvolveNormalized.cpp     |  4 +--
 boofcpp-jni/src/main/cpp/NativeLocalMean.cpp  | 10 +++----
 11 files changed, 46 insertions(+), 58 deletions(-)

diff --git a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
index 80feb22..b5ab78c 100644
--- a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
+++ b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
@@ -211,11 +211,7 @@ JImageInfoU8 extractInfoU8( JNIEnv *env, jobject& jimage ) {
     JImageInfoU8 ret;
 
     jclass objClass = env->GetObjectClass(jimage);
-    jfieldID fid = env->GetFieldID(objClass, "data", "[B");
-    if( env->ExceptionCheck() ) {
-        env->ExceptionDescribe();
-        throw std::runtime_error("Get field ID for data failed");
-    }
+    jfieldID fid = safe_GetFieldID(env, objClass, "data", "[B");
     ret.jdata = env->GetObjectField (jimage, fid);
     if( ret.jdata == nullptr ) {
         throw std::runtime_error("data object is null");
@@ -237,11 +233,7 @@ JImageInfoF32 extractInfoF32( JNIEnv *env, jobject& jimage ) {
     JImageInfoF32 ret;
 
     jclass objClass = env->GetObjectClass(jimage);
-    jfieldID fid = env->GetFieldID(objClass, "data", "[F");
-    if( env->ExceptionCheck() ) {
-        env->ExceptionDescribe();
-        throw std::runtime_error("Get field ID for data failed");
-    }
+    jfieldID fid = safe_GetFieldID(env, objClass, "data", "[F");
     ret.jdata = env->GetObjectField (jimage, fid);
     if( ret.jdata == nullptr ) {
         throw std::runtime_error("data object is null");
@@ -265,11 +257,7 @@ JImageInfo extractInfoCritical( JNIEnv *env, jobject& jimage , const char*type )
     jclass objClass = env->GetObjectClass(jimage);
     jfieldID fid;
 
-    fid = env->GetFieldID(objClass, "data", type);
-    if( env->ExceptionCheck() ) {
-        env->ExceptionDescribe();
-        throw std::runtime_error("Get field ID for data failed");
-    }
+    fid = safe_GetFieldID(env, objClass, "data", type);
     ret.jdata = env->GetObjectField (jimage, fid);
     if( ret.jdata == nullptr ) {
         throw std::runtime_error("data object is null");
@@ -395,7 +383,7 @@ boofcv::Kernel1D<S32>* extractKernel1D_S32( JNIEnv *env, jobject& jkernel ) {
     jint width = safe_GetInt(env,objClass,jkernel, "width");
     jint offset = safe_GetInt(env,objClass,jkernel, "offset");
 
-    jfieldID fid = env->GetFieldID(objClass, "data", "[I");
+    jfieldID fid = safe_GetFieldID(env, objClass, "data", "[I");
     jobject  jarray = env->GetObjectField (jkernel, fid);
     jint length = env->GetArrayLength((jintArray)jarray);
 
@@ -413,7 +401,7 @@ boofcv::Kernel1D<F32>* extractKernel1D_F32( JNIEnv *env, jobject& jkernel ) {
     jint width = safe_GetInt(env,objClass,jkernel, "width");
     jint offset = safe_GetInt(env,objClass,jkernel, "offset");
 
-    jfieldID fid = env->GetFieldID(objClass, "data", "[F");
+    jfieldID fid = safe_GetFieldID(env, objClass, "data", "[F");
     jobject  jarray = env->GetObjectField (jkernel, fid);
     jint length = env->GetArrayLength((jfloatArray)jarray);
 
@@ -431,7 +419,7 @@ boofcv::Kernel2D<boofcv::S32>* extractKernel2D_S32( JNIEnv *env, jobject& jkerne
     jint width = safe_GetInt(env,objClass,jkernel, "width");
     jint offset = safe_GetInt(env,objClass,jkernel, "offset");
 
-    jfieldID fid = env->GetFieldID(objClass, "data", "[I");
+    jfieldID fid = safe_GetFieldID(env, objClass, "data", "[I");
     jobject  jarray = env->GetObjectField (jkernel, fid);
     jint length = env->GetArrayLength((jintArray)jarray);
 
@@ -449,7 +437,7 @@ boofcv::Kernel2D<boofcv::F32>* extractKernel2D_F32( JNIEnv *env, jobject& jkerne
     jint width = safe_GetInt(env,objClass,jkernel, "width");
     jint offset = safe_GetInt(env,objClass,jkernel, "offset");
 
-    jfieldID fid = env->GetFieldID(objClass, "data", "[F");
+    jfieldID fid = safe_GetFieldID(env, objClass, "data", "[F");
     jobject  jarray = env->GetObjectField (jkernel, fid);
     jint length = env->GetArrayLength((jfloatArray)jarray);
 
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp b/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
index a8d6990..9ee5ac4 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
@@ -10,7 +10,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeinit(
     JNIEnv *env, jobject obj, jobject jregionWidth, jdouble scale, jboolean down , jboolean thresholdFromLocalBlocks ) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env, objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
 
     boofcv::ConfigLength region_width = extractConfigLength(env,jregionWidth);
@@ -30,9 +30,9 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeinit(
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativedestroy(JNIEnv *env, jobject obj) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env, objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
+    fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
     jlong nativePtr = env->GetLongField(obj, fid);
 
     if( isInteger ) {
@@ -49,9 +49,9 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeprocess
 
     // Get the pointer to the thresholding algorithm
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env, objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
+    fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
     if( env->ExceptionCheck() )
         return;
     jlong nativePtr = env->GetLongField(obj, fid);
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp b/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
index d511164..6416729 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
@@ -11,7 +11,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeinit(
     jdouble scale, jboolean down , jdouble minimumSpread, jboolean thresholdFromLocalBlocks ) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env, objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
 
     boofcv::ConfigLength region_width = extractConfigLength(env,jregionWidth);
@@ -31,9 +31,9 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeinit(
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativedestroy(JNIEnv *env, jobject obj) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env, objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
+    fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
     jlong nativePtr = env->GetLongField(obj, fid);
 
     if( isInteger ) {
@@ -50,9 +50,9 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeproces
 
     // Get the pointer to the thresholding algorithm
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env, objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
+    fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
     if( env->ExceptionCheck() )
         return;
     jlong nativePtr = env->GetLongField(obj, fid);
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp b/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
index 0f58f27..fe70605 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
@@ -11,7 +11,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeinit(
     jdouble scale, jboolean down , jboolean thresholdFromLocalBlocks ) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env, objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
 
     boofcv::ConfigLength region_width = extractConfigLength(env,jregionWidth);
@@ -31,9 +31,9 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeinit(
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativedestroy(JNIEnv *env, jobject obj) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env, objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
+    fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
     jlong nativePtr = env->GetLongField(obj, fid);
 
     if( isInteger ) {
@@ -50,9 +50,9 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeprocess
 
     // Get the pointer to the thresholding algorithm
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env, objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
+    fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
     if( env->ExceptionCheck() )
         return;
     jlong nativePtr = env->GetLongField(obj, fid);
diff --git a/boofcpp-jni/src/main/cpp/NativeChang2004.cpp b/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
index 31f64d1..a6ecbde 100644
--- a/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
@@ -26,7 +26,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1init
 JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1destroy
         (JNIEnv *env, jobject obj) try {
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "nativePtr", "J");
+    jfieldID fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
     jlong nativePtr = env->GetLongField(obj, fid);
 
     delete (LinearContourLabelChang2004*) nativePtr;
@@ -176,7 +176,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_setConnectRule
 JNIEXPORT jobject JNICALL Java_org_boofcpp_contour_NativeChang2004_getConnectRule
         (JNIEnv *env, jobject obj) try {
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "nativePtr", "J");
+    jfieldID fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
     auto* contour = (LinearContourLabelChang2004*)env->GetLongField(obj, fid);
 
     jclass enumClass = safe_FindClass(env,"boofcv/struct/ConnectRule");
diff --git a/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp b/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
index 1289dfd..05c2769 100644
--- a/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
@@ -11,7 +11,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeinit(
     JNIEnv *env, jobject obj, jdouble threshold, jboolean down ) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env, objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
 
     jfieldID fid_ptr = safe_GetFieldID(env, objClass, "nativePtr", "J");
@@ -29,9 +29,9 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeinit(
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativedestroy(JNIEnv *env, jobject obj) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env, objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
+    fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
     jlong nativePtr = env->GetLongField(obj, fid);
 
     if( isInteger ) {
@@ -48,9 +48,9 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeproces
 
     // Get the pointer to the thresholding algorithm
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env, objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
+    fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
     if( env->ExceptionCheck() )
         return;
     jlong nativePtr = env->GetLongField(obj, fid);
diff --git a/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp b/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
index 2957f81..7ee4ac1 100644
--- a/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
@@ -9,7 +9,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeinit(
     JNIEnv *env, jobject obj, jdouble minValue, jdouble maxValue, jboolean down ) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env, objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
     jfieldID fid_ptr = safe_GetFieldID(env, objClass, "nativePtr", "J");
     jlong ptr;
@@ -26,9 +26,9 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeinit(
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativedestroy(JNIEnv *env, jobject obj) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env, objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
+    fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
     jlong nativePtr = env->GetLongField(obj, fid);
 
     if( isInteger ) {
@@ -45,9 +45,9 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeprocess
 
     // Get the pointer to the thresholding algorithm
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env, objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
+    fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
     if( env->ExceptionCheck() )
         return;
     jlong nativePtr = env->GetLongField(obj, fid);
diff --git a/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp b/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp
index 9f9e0f5..9cda3ea 100644
--- a/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp
@@ -9,7 +9,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageBlurOps_nativeMean(
     JNIEnv *env, jobject obj, jobject jinput, jobject joutput, jint radius, jobject jstorage) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env, objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
 
     if( isInteger ) {
@@ -47,7 +47,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageBlurOps_nativeGaussi
         JNIEnv *env, jobject obj, jobject jinput, jobject joutput, jdouble sigma, jint radius, jobject jstorage) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env, objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
 
     int32_t width = radius > 0 ? 2*radius+1 : -1;
diff --git a/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp b/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp
index 71ec1d7..37dca63 100644
--- a/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp
@@ -32,7 +32,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeHoriz
     JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput, jint jborderType ) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env, objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
     jint inputBits = safe_GetInt(env,objClass,obj,"inputBits");
     jint outputBits = safe_GetInt(env,objClass,obj,"outputBits");
@@ -99,7 +99,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeVerti
     JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput, jint jborderType ) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env, objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
     jint inputBits = safe_GetInt(env,objClass,obj,"inputBits");
     jint outputBits = safe_GetInt(env,objClass,obj,"outputBits");
@@ -160,7 +160,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeConvo
     JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput, jint jborderType ) try {
 
    jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env, objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
     jint inputBits = safe_GetInt(env,objClass,obj,"inputBits");
     jint outputBits = safe_GetInt(env,objClass,obj,"outputBits");
diff --git a/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp b/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp
index 3102e3f..ec74d1f 100644
--- a/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp
@@ -12,7 +12,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_n
     JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput ) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env, objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
 
     if( isInteger ) {
@@ -46,7 +46,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_n
     JNIEnv *env, jobject obj, jobject jkernel, jobject jinput, jobject joutput ) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env, objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
 
     if( isInteger ) {
diff --git a/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp b/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
index 82498f0..6506afa 100644
--- a/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
@@ -10,7 +10,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeinit(
     JNIEnv *env, jobject obj, jobject jregionWidth, jdouble scale, jboolean down ) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env, objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
 
     boofcv::ConfigLength region_width = extractConfigLength(env,jregionWidth);
@@ -30,9 +30,9 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeinit(
 JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativedestroy(JNIEnv *env, jobject obj) try {
 
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env, objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
+    fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
     jlong nativePtr = env->GetLongField(obj, fid);
 
     if( isInteger ) {
@@ -49,9 +49,9 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeprocess
 
     // Get the pointer to the thresholding algorithm
     jclass objClass = env->GetObjectClass(obj);
-    jfieldID fid = env->GetFieldID(objClass, "isInteger", "Z");
+    jfieldID fid = safe_GetFieldID(env, objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
-    fid = env->GetFieldID(objClass, "nativePtr", "J");
+    fid = safe_GetFieldID(env, objClass, "nativePtr", "J");
     if( env->ExceptionCheck() )
         return;
     jlong nativePtr = env->GetLongField(obj, fid);
-- 
2.43.0


From bab37395b16417afb8429d8a8e4644f1db38959e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:38 +0000
Subject: [PATCH 43/50] fix: native functions used the null pointer which they
 got for an array when the virtual machine had no memory

---
 boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp | 10 ++++++++++
 boofcpp-jni/src/main/cpp/JNIBoofCPP.h   | 12 ++++++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
index b5ab78c..1e716c9 100644
--- a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
+++ b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
@@ -34,6 +34,8 @@ WrapJGrowQueue_I32::~WrapJGrowQueue_I32() {
 
 void WrapJGrowQueue_I32::criticalGet() {
     this->data = (jint *)env->GetPrimitiveArrayCritical(array_object, 0);
+    if( this->data == nullptr )
+        throw std::bad_alloc();
 }
 
 void WrapJGrowQueue_I32::criticalRelease() {
@@ -43,6 +45,8 @@ void WrapJGrowQueue_I32::criticalRelease() {
 
 void WrapJGrowQueue_I32::regularGet() {
     this->data = (jint *)env->GetIntArrayElements((jintArray)array_object, 0);
+    if( this->data == nullptr )
+        throw std::bad_alloc();
 }
 
 void WrapJGrowQueue_I32::regularRelease() {
@@ -124,6 +128,8 @@ void copy_into_java( JNIEnv *env,
 
         auto array_src = (boofcv::Point2D<boofcv::S32>*)src.blocks[block_idx];
         auto array_dst = (jint *)env->GetPrimitiveArrayCritical((jarray)the_array, 0);
+        if( array_dst == nullptr )
+            throw std::bad_alloc();
         for( uint32_t j = 0; j < src._size_of_block; j++ ) {
             array_dst[j*2  ] = array_src[j].x;
             array_dst[j*2+1] = array_src[j].y;
@@ -219,6 +225,8 @@ JImageInfoU8 extractInfoU8( JNIEnv *env, jobject& jimage ) {
 
     // Get the elements (you probably have to fetch the length of the array as well
     ret.data = env->GetByteArrayElements((jbyteArray)ret.jdata, 0);
+    if( ret.data == nullptr )
+        throw std::bad_alloc();
     ret.dataLength = env->GetArrayLength((jbyteArray)ret.jdata);
 
     ret.width = safe_GetInt(env,objClass,jimage, "width");
@@ -241,6 +249,8 @@ JImageInfoF32 extractInfoF32( JNIEnv *env, jobject& jimage ) {
 
     // Get the elements (you probably have to fetch the length of the array as well
     ret.data = env->GetFloatArrayElements((jfloatArray)ret.jdata, 0);
+    if( ret.data == nullptr )
+        throw std::bad_alloc();
     ret.dataLength = env->GetArrayLength((jbyteArray)ret.jdata);
 
     ret.width = safe_GetInt(env,objClass,jimage, "width");
diff --git a/boofcpp-jni/src/main/cpp/JNIBoofCPP.h b/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
index c9a1b9d..ad3b2b0 100644
--- a/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
+++ b/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
@@ -2,6 +2,7 @@
 #define BOOFCPP_JNIBOOFCPP_H
 
 #include <jni.h>
+#include <new>
 #include <config_types.h>
 #include "image_types.h"
 #include "base_types.h"
@@ -80,7 +81,8 @@ struct ImageAndInfo {
 
 /**
  * Releases a critical array, without copying back changes, when it goes out of scope. This way it's released even if
- * an exception is thrown.
+ * an exception is thrown. The virtual machine returns a null pointer if it had no memory for the array, that's turned
+ * into an exception.
  */
 struct ScopedCriticalInput {
     JNIEnv *env;
@@ -89,10 +91,12 @@ struct ScopedCriticalInput {
     jint mode;
 
     ScopedCriticalInput( JNIEnv *env, jobject array, void *data , jint mode = JNI_ABORT )
-        : env(env), array(array), data(data), mode(mode) {}
+        : env(env), array(array), data(data), mode(mode) {
+        if( data == nullptr )
+            throw std::bad_alloc();
+    }
     ~ScopedCriticalInput() {
-        if( data != nullptr )
-            env->ReleasePrimitiveArrayCritical((jarray)array, data, mode);
+        env->ReleasePrimitiveArrayCritical((jarray)array, data, mode);
     }
 };
 
-- 
2.43.0


From b8c7cc5f244c782fb1b4d3e4fba95bbf0ebe7d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:38 +0000
Subject: [PATCH 44/50] fix: native functions went on after a Java method which
 they had called threw an exception

---
 boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp      | 14 +++++++++++++-
 boofcpp-jni/src/main/cpp/JNIBoofCPP.h        |  6 ++++++
 boofcpp-jni/src/main/cpp/NativeChang2004.cpp |  2 ++
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
index 1e716c9..fefd43b 100644
--- a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
+++ b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
@@ -84,6 +84,7 @@ void WrapJGrowQueue_I32::resize( uint32_t desired ) {
 //    printf("ENTER resize. desired = %d\n",desired);
 
     env->CallVoidMethod(jobj,methodResize,(jint)desired);
+    check_java_exception(env);
     this->size = desired;
 
     // See if the array has been resized
@@ -121,10 +122,13 @@ void copy_into_java( JNIEnv *env,
     jmethodID method_get =  safe_GetMethodID(env, class_fastqueue, "get", "(I)Ljava/lang/Object;");
 
     env->CallVoidMethod(object_blocks,method_resize,(jint)src._number_of_blocks);
+    check_java_exception(env);
     env->CallVoidMethod(object_sets,method_resize,(jint)src.set_info.size());
+    check_java_exception(env);
 
     for( uint32_t block_idx = 0; block_idx < src._number_of_blocks; block_idx++ ) {
         jobject the_array = env->CallObjectMethod(object_blocks,method_get,(jint)block_idx);
+        check_java_exception(env);
 
         auto array_src = (boofcv::Point2D<boofcv::S32>*)src.blocks[block_idx];
         auto array_dst = (jint *)env->GetPrimitiveArrayCritical((jarray)the_array, 0);
@@ -139,14 +143,16 @@ void copy_into_java( JNIEnv *env,
         env->DeleteLocalRef(the_array);
     }
 
-    jclass class_blockindexlength = env->FindClass("boofcv/struct/BlockIndexLength");
+    jclass class_blockindexlength = safe_FindClass(env,"boofcv/struct/BlockIndexLength");
     jmethodID method_bil_set =  safe_GetMethodID(env, class_blockindexlength, "set", "(III)V");
 
     for( uint32_t i = 0; i < src.set_info.size(); i++ ) {
         const PackedSetInfo& set_info = src.set_info[i];
 
         jobject jset = env->CallObjectMethod(object_sets,method_get,(jint)i);
+        check_java_exception(env);
         env->CallVoidMethod(jset,method_bil_set,set_info.offset*2,set_info.size,set_info.block);
+        check_java_exception(env);
         env->DeleteLocalRef(jset);
     }
 }
@@ -173,6 +179,12 @@ void throw_java_exception( JNIEnv *env )
     }
 }
 
+void check_java_exception( JNIEnv *env )
+{
+    if( env->ExceptionCheck() )
+        throw std::runtime_error("Java method threw an exception");
+}
+
 jclass safe_FindClass( JNIEnv *env, const char* name )
 {
     jclass theclass = env->FindClass(name);
diff --git a/boofcpp-jni/src/main/cpp/JNIBoofCPP.h b/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
index ad3b2b0..29d451d 100644
--- a/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
+++ b/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
@@ -113,6 +113,12 @@ struct ScopedCriticalOutput : public ScopedCriticalInput {
  */
 void throw_java_exception( JNIEnv *env );
 
+/**
+ * Throws a C++ exception if a Java exception is pending, e.g. because a Java method which was called threw one. Almost no
+ * JNI function can be called while there is one.
+ */
+void check_java_exception( JNIEnv *env );
+
 void copy_into_java( JNIEnv *env, const boofcv::PackedSet<boofcv::Point2D<boofcv::S32>>& src , jobject dst );
 
 jclass safe_FindClass( JNIEnv *env, const char* name );
diff --git a/boofcpp-jni/src/main/cpp/NativeChang2004.cpp b/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
index a6ecbde..739bc51 100644
--- a/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
@@ -66,6 +66,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1process
         // internal contour ids will be grabbed from storagePoints
         grow_queue.setTo(p.internalIndexes);
         env->CallVoidMethod(obj,midAdd,(jint)p.id,(jint)p.externalIndex);
+        check_java_exception(env);
     }
 
     jfieldID field_packed = safe_GetFieldID(env, objClass, "packedPoints", "Lboofcv/struct/PackedSetsPoint2D_I32;");
@@ -155,6 +156,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_setConnectRule
     jclass enumClass = env->GetObjectClass(jrule);
     jmethodID mid =  safe_GetMethodID(env, enumClass, "ordinal", "()I");
     jint rule_oridinal = env->CallIntMethod(jrule,mid);
+    check_java_exception(env);
 
     switch( rule_oridinal ) {
         case 0:
-- 
2.43.0


From 8c26793e9b1797bd3f84d6fbbae947026e783156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:22 +0000
Subject: [PATCH 45/50] fix: mean blur with a radius of 2^31 or more wrote
 outside the image, and large ones made a kernel far larger than the image

---
 boofcpp/src/boofcv/image_blur.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/boofcpp/src/boofcv/image_blur.h b/boofcpp/src/boofcv/image_blur.h
index 760646e..3632454 100644
--- a/boofcpp/src/boofcv/image_blur.h
+++ b/boofcpp/src/boofcv/image_blur.h
@@ -4,6 +4,7 @@
 #include "convolve.h"
 #include "sanity_checks.h"
 #include <math.h>
+#include <algorithm>
 #include <vector>
 
 namespace boofcv {
@@ -176,6 +177,9 @@ namespace boofcv {
         {
             checkSameShape(input,output);
 
+            // the window is cut off at the border, making it larger than this changes nothing. It also can't overflow
+            radius = std::min(radius,input.width);
+
             typedef typename TypeInfo<E>::signed_type signed_type;
 
             Kernel1D<signed_type> kernel = FactoryKernel::mean1D<signed_type>(radius*2+1);
@@ -192,6 +196,9 @@ namespace boofcv {
         {
             checkSameShape(input,output);
 
+            // the window is cut off at the border, making it larger than this changes nothing. It also can't overflow
+            radius = std::min(radius,input.height);
+
             typedef typename TypeInfo<E>::signed_type signed_type;
 
             Kernel1D<signed_type> kernel = FactoryKernel::mean1D<signed_type>(radius*2+1);
-- 
2.43.0


From 57914d2780044b3296753e533f38f881dc0ea565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:22 +0000
Subject: [PATCH 46/50] fix: local mean threshold took a negative region width
 as a huge one

---
 boofcpp/src/boofcv/binary_ops.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/binary_ops.h b/boofcpp/src/boofcv/binary_ops.h
index 1ef4f5b..da410c1 100644
--- a/boofcpp/src/boofcv/binary_ops.h
+++ b/boofcpp/src/boofcv/binary_ops.h
@@ -178,11 +178,15 @@ namespace boofcv
                                const ConfigLength& width , float scale , bool down ,
                                Gray<T>& storage1 , Gray<T>&  storage2 ) {
 
+            int regionWidth = width.computeI(min(input.width,input.height));
+            if( regionWidth < 0 )
+                throw invalid_argument("Width of the local region must not be negative");
+
             output.reshape(input.width, input.height);
             storage1.reshape(input.width, input.height);
             storage2.reshape(input.width, input.height);
 
-            uint32_t radius = (uint32_t)width.computeI(min(input.width,input.height))/2;
+            uint32_t radius = (uint32_t)regionWidth/2;
 
             Gray<T>& mean = storage1;
 
-- 
2.43.0


From d28063f796583dfd6abb96858ed598ab79157700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:40 +0000
Subject: [PATCH 47/50] fix: JNI mean blur took a negative radius as a huge
 one, and the width of a Gaussian overflowed for radii of 2^30 and more

---
 boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp b/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp
index 9cda3ea..17c45b3 100644
--- a/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp
@@ -8,6 +8,9 @@ extern "C" {
 JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageBlurOps_nativeMean(
     JNIEnv *env, jobject obj, jobject jinput, jobject joutput, jint radius, jobject jstorage) try {
 
+    if( radius <= 0 )
+        throw std::invalid_argument("Radius must be > 0");
+
     jclass objClass = env->GetObjectClass(obj);
     jfieldID fid = safe_GetFieldID(env, objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
@@ -50,6 +53,8 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageBlurOps_nativeGaussi
     jfieldID fid = safe_GetFieldID(env, objClass, "isInteger", "Z");
     jboolean isInteger = env->GetBooleanField(obj, fid);
 
+    if( radius > 0x3fffffff )
+        throw std::invalid_argument("Radius is too large");
     int32_t width = radius > 0 ? 2*radius+1 : -1;
 
     if( isInteger ) {
-- 
2.43.0


From 2926533ab39b86f0b728c56b03b489d872ecf452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:48 +0000
Subject: [PATCH 48/50] fix: packed sets with blocks of no elements divided by
 zero

---
 boofcpp/src/boofcv/packed_sets.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/boofcpp/src/boofcv/packed_sets.h b/boofcpp/src/boofcv/packed_sets.h
index 7b80591..caffdba 100644
--- a/boofcpp/src/boofcv/packed_sets.h
+++ b/boofcpp/src/boofcv/packed_sets.h
@@ -51,6 +51,9 @@ namespace boofcv {
         PackedSet( uint32_t size_of_block ) :
                 _size_of_block(size_of_block) ,_number_of_blocks(1), _total_element(0)
         {
+            if( size_of_block == 0 )
+                throw std::invalid_argument("Blocks must have at least one element");
+
             blocks = new T*[_number_of_blocks];
             try {
                 blocks[0] = new T[_size_of_block];
-- 
2.43.0


From 319d7fd50a2f0ae296c39bc33fb3a3d24cc4ca7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:48 +0000
Subject: [PATCH 49/50] fix: copying packed sets, or a contour finder which has
 them, shared the blocks and freed them twice

---
 boofcpp/src/boofcv/packed_sets.h | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/boofcpp/src/boofcv/packed_sets.h b/boofcpp/src/boofcv/packed_sets.h
index caffdba..4ce8b1c 100644
--- a/boofcpp/src/boofcv/packed_sets.h
+++ b/boofcpp/src/boofcv/packed_sets.h
@@ -3,6 +3,7 @@
 
 #include <cstdint>
 #include <stdexcept>
+#include <utility>
 #include <vector>
 
 namespace boofcv {
@@ -65,6 +66,27 @@ namespace boofcv {
 
         PackedSet() : PackedSet(2000) {}
 
+        // copy constructor. The copy has its own blocks
+        PackedSet( const PackedSet<T>& other ) : PackedSet(other._size_of_block) {
+            for( uint32_t i = 0; i < other._total_element; i++ ) {
+                _add_element(other.blocks[i/_size_of_block][i%_size_of_block]);
+            }
+            set_info = other.set_info;
+        }
+
+        PackedSet<T>& operator=( const PackedSet<T>& other ) // copy assignment
+        {
+            if (this != &other) { // self-assignment check expected
+                PackedSet<T> tmp(other);
+                std::swap(blocks,tmp.blocks);
+                std::swap(_number_of_blocks,tmp._number_of_blocks);
+                std::swap(_size_of_block,tmp._size_of_block);
+                std::swap(_total_element,tmp._total_element);
+                set_info.swap(tmp.set_info);
+            }
+            return *this;
+        }
+
         ~PackedSet() {
             for( uint32_t i = 0; i < _number_of_blocks; i++ ) {
                 delete []blocks[i];
-- 
2.43.0


From 9211395a2e78bcefa6b96d29058b7840a6e0f284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:50 +0000
Subject: [PATCH 50/50] fix: Otsu thresholds overflowed for regions of little
 texture and a large tuning parameter

---
 boofcpp/src/boofcv/binary_ops.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/binary_ops.cpp b/boofcpp/src/boofcv/binary_ops.cpp
index 40bf4fe..1b04a62 100644
--- a/boofcpp/src/boofcv/binary_ops.cpp
+++ b/boofcpp/src/boofcv/binary_ops.cpp
@@ -1,4 +1,5 @@
 #include <algorithm>
+#include <cmath>
 
 #include "binary_ops.h"
 #include "sanity_checks.h"
@@ -120,9 +121,10 @@ void boofcv::ComputeOtsu::compute(const GrowArray<uint32_t>&histogram , uint32_t
     // apply optional penalty to low texture regions
     variance += 0.001; // avoid divide by zero
     // multiply by threshold twice in an effort to have the image's scaling not effect the tuning parameter
-    int adjustment =  (int)(tuning*threshold*tuning*threshold/variance+0.5);
+    // the adjustment can be larger than any integer
+    double adjustment = std::trunc(tuning*threshold*tuning*threshold/variance+0.5);
     threshold += down ? -adjustment : adjustment;
-    threshold = (int)(scale*std::max(threshold,0.0)+0.5);
+    threshold = std::trunc(scale*std::max(threshold,0.0)+0.5);
 }
 
 void boofcv::ComputeOtsu::computeOtsu(const GrowArray<uint32_t>& histogram , uint32_t totalPixels ) {
-- 
2.43.0

