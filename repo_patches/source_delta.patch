From 2a53a706920315165fe8cb3e43b6a51b11bdf705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 01/44] fix: COL2IM bounds columns by the column index, not the
 row index

---
 src/math/TensorMath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/TensorMath.cpp b/src/math/TensorMath.cpp
index f1cbebe..767a1af 100644
--- a/src/math/TensorMath.cpp
+++ b/src/math/TensorMath.cpp
@@ -332,7 +332,7 @@ void TensorMath::COL2IM(Tensor& source, const int source_width, const int source
           if(iy >= 0 && iy < source_height) {
             for(int ox = 0; ox < target_width; ox++) {
               int ix = ox * stride_width - pad_width + kx;
-              if(ix >= 0 && iy < source_width) {
+              if(ix >= 0 && ix < source_width) {
                 source_ptr[(imap * source_height + iy) * source_width + ix] +=
                   target_ptr[(sample * target_height + oy) * target_width + ox];
               } 
-- 
2.43.0


From dc3b0ef8aa26020022cea07d46268545c9d51d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 02/44] fix: reference GEMV swaps the roles of M and N for a
 transposed matrix

---
 src/math/TensorMath.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/math/TensorMath.cpp b/src/math/TensorMath.cpp
index 767a1af..9d77053 100644
--- a/src/math/TensorMath.cpp
+++ b/src/math/TensorMath.cpp
@@ -135,10 +135,14 @@ void TensorMath::GEMV(const bool is_row_major, const bool transpose_A, const int
   const datum* x_ptr = X.data_ptr_const(0, 0, 0, smX);
   datum* y_ptr = Y.data_ptr(0, 0, 0, smY);
   
+  // M and N describe A as stored, the transposed product swaps their roles
+  const int rows = transpose_A ? N : M;
+  const int columns = transpose_A ? M : N;
+  
   #pragma omp parallel for default(shared)
-  for(int i = 0; i < M; i++) {
+  for(int i = 0; i < rows; i++) {
     datum sum = 0.0;
-    for(int j = 0; j < N; j++) {
+    for(int j = 0; j < columns; j++) {
       const datum a_value = transpose_A ?
         a_ptr[j * ldA + i]
       :
-- 
2.43.0


From 052d01cb5f343b754dff29ee2855802cc436005c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 03/44] fix: advanced max-pooling rejects inputs that do not
 hold a pooling region

---
 src/net/AdvancedMaxPoolingLayer.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/net/AdvancedMaxPoolingLayer.cpp b/src/net/AdvancedMaxPoolingLayer.cpp
index e40d027..32f1438 100644
--- a/src/net/AdvancedMaxPoolingLayer.cpp
+++ b/src/net/AdvancedMaxPoolingLayer.cpp
@@ -59,6 +59,15 @@ bool AdvancedMaxPoolingLayer::CreateOutputs (
     return false;
   }
 
+  // Validate dimensions
+  if (region_width_ == 0 || region_height_ == 0 ||
+      stride_width_ == 0 || stride_height_ == 0 ||
+      input->data.width() < region_width_ ||
+      input->data.height() < region_height_) {
+    LOGERROR << "Pooling region does not fit into input!";
+    return false;
+  }
+
   const int output_width = ((int)input->data.width() - (int)region_width_ ) / (int)stride_width_ + 1;
   const int output_height = ((int)input->data.height() - (int)region_height_) / (int)stride_height_ + 1;
 
-- 
2.43.0


From fe1bb28f220a5c75f462dfaaba909f7f884f3b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 04/44] fix: pooling layers reject empty regions instead of
 dividing by zero

---
 src/net/InputDownSamplingLayer.cpp | 3 ++-
 src/net/MaxPoolingLayer.cpp        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/net/InputDownSamplingLayer.cpp b/src/net/InputDownSamplingLayer.cpp
index b2adf29..0874b5d 100644
--- a/src/net/InputDownSamplingLayer.cpp
+++ b/src/net/InputDownSamplingLayer.cpp
@@ -39,7 +39,8 @@ bool InputDownSamplingLayer::CreateOutputs (
   }
 
   // Validate dimensions
-  if ( (input->data.width() % region_width_) != 0 ||
+  if (region_width_ == 0 || region_height_ == 0 ||
+       (input->data.width() % region_width_) != 0 ||
        (input->data.height() % region_height_) != 0) {
     LOGERROR << "Input dimensions not divisible by region dimensions!";
     return false;
diff --git a/src/net/MaxPoolingLayer.cpp b/src/net/MaxPoolingLayer.cpp
index 997e6e4..ba5b7b1 100644
--- a/src/net/MaxPoolingLayer.cpp
+++ b/src/net/MaxPoolingLayer.cpp
@@ -52,7 +52,8 @@ bool MaxPoolingLayer::CreateOutputs (
   }
 
   // Validate dimensions
-  if ( (input->data.width() % region_width_) != 0 ||
+  if (region_width_ == 0 || region_height_ == 0 ||
+       (input->data.width() % region_width_) != 0 ||
        (input->data.height() % region_height_) != 0) {
     LOGERROR << "Input dimensions not divisible by region dimensions!";
     return false;
-- 
2.43.0


From 0a6e4217ece8ef2954e842929e995fb06034c253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 05/44] fix: sum and concatenation layers reject inputs of
 different size

---
 src/net/ConcatenationLayer.cpp | 3 ++-
 src/net/SumLayer.cpp           | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/net/ConcatenationLayer.cpp b/src/net/ConcatenationLayer.cpp
index 25b7609..1e3bb51 100644
--- a/src/net/ConcatenationLayer.cpp
+++ b/src/net/ConcatenationLayer.cpp
@@ -32,8 +32,9 @@ bool ConcatenationLayer::CreateOutputs (const std::vector< CombinedTensor* >& in
   }
   
   if(input_a->data.width() != input_b->data.width()
-    && input_a->data.height() != input_b->data.height()) {
+    || input_a->data.height() != input_b->data.height()) {
     LOGERROR << "Dimensions don't match!";
+    return false;
   }
   
   if(input_a->data.samples() != input_b->data.samples()) {
diff --git a/src/net/SumLayer.cpp b/src/net/SumLayer.cpp
index c599aa1..f9a34d1 100644
--- a/src/net/SumLayer.cpp
+++ b/src/net/SumLayer.cpp
@@ -33,8 +33,9 @@ bool SumLayer::CreateOutputs (const std::vector< CombinedTensor* >& inputs,
   }
   
   if(input_a->data.width() != input_b->data.width()
-    && input_a->data.height() != input_b->data.height()) {
+    || input_a->data.height() != input_b->data.height()) {
     LOGERROR << "Dimensions don't match!";
+    return false;
   }
   
   if(input_a->data.samples() != input_b->data.samples()) {
-- 
2.43.0


From ba1ea5a50b81783e39e01afdd0a83e4089df9650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 06/44] fix: sum layer validates the output it is given instead
 of a null pointer

---
 src/net/SumLayer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/SumLayer.cpp b/src/net/SumLayer.cpp
index f9a34d1..c80dc12 100644
--- a/src/net/SumLayer.cpp
+++ b/src/net/SumLayer.cpp
@@ -88,7 +88,7 @@ bool SumLayer::Connect (const std::vector< CombinedTensor* >& inputs,
   }
   
   if((output->data.elements() != input_a->data.elements())
-    && (output_->data.elements() != input_b->data.elements())) {
+    || (output->data.elements() != input_b->data.elements())) {
     LOGERROR << "Wrong output dimensions!";
     return false;
   }
-- 
2.43.0


From bae5386bfd90dcbca363e24033f78b892ecca005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:58 +0000
Subject: [PATCH 07/44] fix: h-max weight gradients apply the chain rule to the
 output gradient

---
 src/net/HMaxActivationFunction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/net/HMaxActivationFunction.cpp b/src/net/HMaxActivationFunction.cpp
index 49c2684..aa707f2 100644
--- a/src/net/HMaxActivationFunction.cpp
+++ b/src/net/HMaxActivationFunction.cpp
@@ -168,8 +168,8 @@ void HMaxActivationFunction::BackPropagate() {
     datum input_delta = output_delta * a * output_mix; 
     
     // Calculate gradient of the output w.r.t. to weights
-    delta_a += output_mix * input_data;
-    delta_b += output_mix;
+    delta_a += output_delta * output_mix * input_data;
+    delta_b += output_delta * output_mix;
 
     // handle the KL divergence regularization;
     // We need to add the derivative of eq. (4) w.r.t. x here to input_delta
-- 
2.43.0


From 04562146729e7b93ee4bff95e0f76297462e41cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:58 +0000
Subject: [PATCH 08/44] fix: local response normalization iterates columns up
 to the width, not the height

---
 src/net/LocalResponseNormalizationLayer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/net/LocalResponseNormalizationLayer.cpp b/src/net/LocalResponseNormalizationLayer.cpp
index efadf67..808d934 100644
--- a/src/net/LocalResponseNormalizationLayer.cpp
+++ b/src/net/LocalResponseNormalizationLayer.cpp
@@ -83,7 +83,7 @@ void LocalResponseNormalizationLayer::FeedForward() {
     if(normalization_method_ == WITHIN_CHANNELS) {
       for(unsigned int map = 0; map < maps_; map++) {
         for(unsigned int y = 0; y < input_height_; y++) {
-          for(unsigned int x = 0; x < input_height_; x++) {
+          for(unsigned int x = 0; x < input_width_; x++) {
             datum region_sum = 0;
             unsigned int region_size = 0;
             for(unsigned int iy = (((int)y-sub) > 0 ? (int)y-sub : 0); (iy < input_height_) && (iy <= ((int)y+add)); iy++) {
@@ -103,7 +103,7 @@ void LocalResponseNormalizationLayer::FeedForward() {
     } else if(normalization_method_ == ACROSS_CHANNELS) {
       for(unsigned int map = 0; map < maps_; map++) {
         for(unsigned int y = 0; y < input_height_; y++) {
-          for(unsigned int x = 0; x < input_height_; x++) {
+          for(unsigned int x = 0; x < input_width_; x++) {
             datum region_sum = 0;
             unsigned int region_size = 0;
             for(unsigned int imap = (((int)map-sub) > 0 ? (int)map-sub : 0); (imap < maps_) && (imap <= ((int)map+add)); imap++) {
@@ -135,7 +135,7 @@ void LocalResponseNormalizationLayer::BackPropagate() {
     if(normalization_method_ == WITHIN_CHANNELS) {
       for(unsigned int map = 0; map < maps_; map++) {
         for(unsigned int y = 0; y < input_height_; y++) {
-          for(unsigned int x = 0; x < input_height_; x++) {
+          for(unsigned int x = 0; x < input_width_; x++) {
             datum region_sum = (*region_sums_.data_ptr_const(x,y,map,sample));
             unsigned int region_size = 0;
             for(unsigned int iy = (((int)y-sub) > 0 ? (int)y-sub : 0); (iy < input_height_) && (iy <= ((int)y+add)); iy++) {
@@ -163,7 +163,7 @@ void LocalResponseNormalizationLayer::BackPropagate() {
     } else if(normalization_method_ == ACROSS_CHANNELS) {
       for(unsigned int map = 0; map < maps_; map++) {
         for(unsigned int y = 0; y < input_height_; y++) {
-          for(unsigned int x = 0; x < input_height_; x++) {
+          for(unsigned int x = 0; x < input_width_; x++) {
             datum region_sum = (*region_sums_.data_ptr_const(x,y,map,sample));
             unsigned int region_size = 0;
             for(unsigned int imap = (((int)map-sub) > 0 ? (int)map-sub : 0); (imap < maps_) && (imap <= ((int)map+add)); imap++) {
-- 
2.43.0


From 68f7c6e09e3c9bfff5aa9a07de8498dc174bbd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:23 +0000
Subject: [PATCH 09/44] fix: moving a tensor keeps its shadow and memory
 mapping state

---
 src/util/Tensor.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index d927f44..bd11560 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -73,8 +73,14 @@ Tensor::Tensor ( Tensor && tensor ) {
   width_ = tensor.width_;
   height_ = tensor.height_;
   elements_ = tensor.elements_;
+  is_shadow_ = tensor.is_shadow_;
+  shadow_target_ = tensor.shadow_target_;
+  mmapped_ = tensor.mmapped_;
+  original_mmap_ = tensor.original_mmap_;
 
   tensor.data_ptr_ = nullptr;
+  tensor.mmapped_ = false;
+  tensor.original_mmap_ = nullptr;
   tensor.DeleteIfPossible();
 }
 
-- 
2.43.0


From 3d4470cf04494a9aad346e02da879cd3bdfddb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:23 +0000
Subject: [PATCH 10/44] fix: unmap the whole mapping, and the old one when a
 mapped tensor is loaded again

---
 src/util/CompressedTensor.cpp | 7 +++----
 src/util/Tensor.cpp           | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/util/CompressedTensor.cpp b/src/util/CompressedTensor.cpp
index b8a76a5..6882ddd 100644
--- a/src/util/CompressedTensor.cpp
+++ b/src/util/CompressedTensor.cpp
@@ -156,10 +156,9 @@ void CompressedTensor::Deserialize ( std::istream& input , bool head_only, bool
       if(target_mmap == MAP_FAILED) {
         LOGERROR << "Memory map failed: " << errno;
       }
+      char* target_data = ((char*)target_mmap) + offset_in_page;
+      Resize(samples, width, height, maps, compressed_length, target_data, true);
       original_mmap_ = target_mmap;
-      
-      target_mmap = (void*)(((long)target_mmap) + offset_in_page);
-      Resize(samples, width, height, maps, compressed_length, (char*)target_mmap, true);
       input.seekg(compressed_length, std::ios::cur);
     } else
 #endif
@@ -173,7 +172,7 @@ void CompressedTensor::DeleteIfPossible() {
   if ( compressed_data_ptr_ != nullptr ) {
 #ifdef BUILD_POSIX
     if(mmapped_) {
-      munmap((void*)original_mmap_, compressed_length_);
+      munmap((void*)original_mmap_, (std::size_t)((compressed_data_ptr_ + compressed_length_) - (char*)original_mmap_));
       original_mmap_ = nullptr;
       mmapped_ = false;
     } else {
diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index bd11560..37419d6 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -310,10 +310,9 @@ void Tensor::Deserialize ( std::istream& input , bool head_only, bool try_mmap,
       if(target_mmap == MAP_FAILED) {
         LOGERROR << "Memory map failed: " << errno;
       }
+      datum* target_data = (datum*)(((long)target_mmap) + offset_in_page);
+      Resize(samples, width, height, maps, target_data, true);
       original_mmap_ = target_mmap;
-      
-      target_mmap = (void*)(((long)target_mmap) + offset_in_page);
-      Resize(samples, width, height, maps, (datum*)target_mmap, true);
       input.seekg(( elements * sizeof ( datum ) ) / sizeof ( char ) , std::ios::cur);
     } else
 #endif
@@ -403,7 +402,7 @@ void Tensor::DeleteIfPossible() {
     if ( !is_shadow_ ) {
 #ifdef BUILD_POSIX
       if(mmapped_) {
-        munmap((void*)original_mmap_, (elements_ * sizeof(datum)) / sizeof(char));
+        munmap((void*)original_mmap_, (std::size_t)((char*)(data_ptr_ + elements_) - (char*)original_mmap_));
         original_mmap_ = nullptr;
         mmapped_ = false;
       } else {
-- 
2.43.0


From dcd4e0da87732c9de00684b06475a545b933597c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:21 +0000
Subject: [PATCH 11/44] fix: recognise the Tensor and jpeg file name endings

---
 src/util/Tensor.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index 37419d6..4f86334 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -604,9 +604,9 @@ void Tensor::LoadFromFile ( const std::string& filename ) {
 #ifdef BUILD_JPG
 
   if ( ( filename.compare ( filename.length() - 3, 3, "jpg" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "jpeg" ) == 0 )
+       || ( filename.compare ( filename.length() - 4, 4, "jpeg" ) == 0 )
        || ( filename.compare ( filename.length() - 3, 3, "JPG" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "JPEG" ) == 0 )
+       || ( filename.compare ( filename.length() - 4, 4, "JPEG" ) == 0 )
      ) {
     Conv::JPGUtil::LoadFromFile ( filename, *this );
     return;
@@ -614,7 +614,7 @@ void Tensor::LoadFromFile ( const std::string& filename ) {
 
 #endif
 
-  if ( filename.compare ( filename.length() - 3, 3, "Tensor" ) == 0 ) {
+  if ( filename.length() >= 6 && filename.compare ( filename.length() - 6, 6, "Tensor" ) == 0 ) {
     std::ifstream input_image_file ( filename, std::ios::in | std::ios::binary );
 
     if ( !input_image_file.good() )
@@ -647,9 +647,9 @@ void Tensor::WriteToFile ( const std::string& filename ) {
 #ifdef BUILD_JPG
 
   if ( ( filename.compare ( filename.length() - 3, 3, "jpg" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "jpeg" ) == 0 )
+       || ( filename.compare ( filename.length() - 4, 4, "jpeg" ) == 0 )
        || ( filename.compare ( filename.length() - 3, 3, "JPG" ) == 0 )
-       || ( filename.compare ( filename.length() - 3, 3, "JPEG" ) == 0 )
+       || ( filename.compare ( filename.length() - 4, 4, "JPEG" ) == 0 )
      ) {
     Conv::JPGUtil::WriteToFile ( filename, *this );
     return;
@@ -657,7 +657,7 @@ void Tensor::WriteToFile ( const std::string& filename ) {
 
 #endif
 
-  if ( filename.compare ( filename.length() - 3, 3, "Tensor" ) == 0 ) {
+  if ( filename.length() >= 6 && filename.compare ( filename.length() - 6, 6, "Tensor" ) == 0 ) {
     std::ofstream output_image_file ( filename, std::ios::out | std::ios::binary );
 
     if ( !output_image_file.good() )
-- 
2.43.0


From 4a9bbcc7ab38324e5f8587a593e7f01e06516056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:21 +0000
Subject: [PATCH 12/44] fix: list tensor streams report whether a sample was
 copied and free their colour tables

---
 src/util/ListTensorStream.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/util/ListTensorStream.cpp b/src/util/ListTensorStream.cpp
index 0832b12..cc80b56 100644
--- a/src/util/ListTensorStream.cpp
+++ b/src/util/ListTensorStream.cpp
@@ -155,11 +155,14 @@ namespace Conv {
 						}
 					}
 				} // end if
-				Tensor::CopySample(label_tensor, source_sample, target, target_sample);
+				delete[] cr;
+				delete[] cg;
+				delete[] cb;
+				return Tensor::CopySample(label_tensor, source_sample, target, target_sample);
 				
 			} else {
 				// Tensor has an image in it, no transform needed
-				Tensor::CopySample(rgb_tensor, source_sample, target, target_sample);
+				return Tensor::CopySample(rgb_tensor, source_sample, target, target_sample);
 			}
 		} else {
 			return false;
-- 
2.43.0


From 2f9f6f3ed9c344c88e3e264aac74cde918a9ed78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:21 +0000
Subject: [PATCH 13/44] fix: compressed streams reject target samples beyond
 the target tensor

---
 src/util/CompressedTensorStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/CompressedTensorStream.cpp b/src/util/CompressedTensorStream.cpp
index 8f1d7f2..762ee49 100644
--- a/src/util/CompressedTensorStream.cpp
+++ b/src/util/CompressedTensorStream.cpp
@@ -69,7 +69,7 @@ bool CompressedTensorStream::CopySample(const unsigned int source, const std::si
 {
   if(source < tensors_.size()) {
     CompressedTensor* const ctensor = tensors_[source];
-    if(source_sample == 0 && ctensor->width() == target.width() && ctensor->height() == target.height() && ctensor->maps() == target.maps() && ctensor->samples() == 1) {
+    if(source_sample == 0 && target_sample < target.samples() && ctensor->width() == target.width() && ctensor->height() == target.height() && ctensor->maps() == target.maps() && ctensor->samples() == 1) {
       // This is a little hack for faster loading of certain datasets
 #ifdef BUILD_OPENCL
       target.MoveToCPU();
-- 
2.43.0


From deb8811b907612a7cbb4a5d205759addb8115d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:46 +0000
Subject: [PATCH 14/44] fix: tensor streams can be deleted through their base
 class

---
 include/cn24/util/TensorStream.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cn24/util/TensorStream.h b/include/cn24/util/TensorStream.h
index 67971a8..3ee2d0b 100644
--- a/include/cn24/util/TensorStream.h
+++ b/include/cn24/util/TensorStream.h
@@ -22,6 +22,8 @@ namespace Conv {
 
 class TensorStream {
 public:
+  virtual ~TensorStream() {}
+
   virtual std::size_t GetWidth(unsigned int index) = 0;
   virtual std::size_t GetHeight(unsigned int index) = 0;
   virtual std::size_t GetMaps(unsigned int index) = 0;
-- 
2.43.0


From f5011a99712d59761f59ee2b7992df9e0f6bb970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:12 +0000
Subject: [PATCH 15/44] fix: segmentation datasets take the size of every
 testing image into account

---
 src/util/TensorStreamDataset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/TensorStreamDataset.cpp b/src/util/TensorStreamDataset.cpp
index 14109dd..c9cfe73 100644
--- a/src/util/TensorStreamDataset.cpp
+++ b/src/util/TensorStreamDataset.cpp
@@ -87,7 +87,7 @@ TensorStreamDataset::TensorStreamDataset (
       max_height_ = training_stream_->GetHeight(2*t);
   }
 
-  for (unsigned int t = (tensor_count_training_ / 2) ; t < tensors_; t++) {
+  for (unsigned int t = 0; t < (tensor_count_testing_ / 2); t++) {
     if(testing_stream_->GetWidth(2*t) > max_width_)
       max_width_ = testing_stream_->GetWidth(2*t);
     
-- 
2.43.0


From bb5cb1920396690366848a4967a11824e2e9b9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:12 +0000
Subject: [PATCH 16/44] fix: position maps of images one pixel wide or high are
 zero, not NaN

---
 src/util/TensorStreamDataset.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/TensorStreamDataset.cpp b/src/util/TensorStreamDataset.cpp
index c9cfe73..df54c30 100644
--- a/src/util/TensorStreamDataset.cpp
+++ b/src/util/TensorStreamDataset.cpp
@@ -205,8 +205,8 @@ bool TensorStreamDataset::GetTrainingSample (Tensor& data_tensor, Tensor& label_
 		// Write spatial prior data to helper tensor
 		for (unsigned int y = 0; y < data_height; y++) {
 			for (unsigned int x = 0; x < data_width; x++) {
-				*helper_tensor.data_ptr(x, y, 0, sample) = ((datum)x) / ((datum)data_width - 1);
-				*helper_tensor.data_ptr(x, y, 1, sample) = ((datum)y) / ((datum)data_height - 1);
+				*helper_tensor.data_ptr(x, y, 0, sample) = data_width > 1 ? ((datum)x) / ((datum)data_width - 1) : 0;
+				*helper_tensor.data_ptr(x, y, 1, sample) = data_height > 1 ? ((datum)y) / ((datum)data_height - 1) : 0;
 			}
 			for (unsigned int x = data_width; x < GetWidth(); x++) {
 				*helper_tensor.data_ptr(x, y, 0, sample) = 0;
@@ -251,8 +251,8 @@ bool TensorStreamDataset::GetTestingSample (Tensor& data_tensor, Tensor& label_t
 		// Write spatial prior data to helper tensor
 		for (unsigned int y = 0; y < data_height; y++) {
 			for (unsigned int x = 0; x < data_width; x++) {
-				*helper_tensor.data_ptr(x, y, 0, sample) = ((datum)x) / ((datum)data_width - 1);
-				*helper_tensor.data_ptr(x, y, 1, sample) = ((datum)y) / ((datum)data_height - 1);
+				*helper_tensor.data_ptr(x, y, 0, sample) = data_width > 1 ? ((datum)x) / ((datum)data_width - 1) : 0;
+				*helper_tensor.data_ptr(x, y, 1, sample) = data_height > 1 ? ((datum)y) / ((datum)data_height - 1) : 0;
 			}
 			for (unsigned int x = data_width; x < GetWidth(); x++) {
 				*helper_tensor.data_ptr(x, y, 0, sample) = 0;
-- 
2.43.0


From 24249d16981ba8c73d1cfb654b6f801679d679d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:12 +0000
Subject: [PATCH 17/44] fix: testing patches follow the training patches, not
 the number of testing patches

---
 src/util/TensorStreamPatchDataset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index 00dc53b..53ab65a 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -269,7 +269,7 @@ bool TensorStreamPatchDataset::GetTrainingSample (Tensor& data_tensor, Tensor& l
 
 bool TensorStreamPatchDataset::GetTestingSample (Tensor& data_tensor, Tensor& label_tensor, Tensor& helper_tensor, Tensor& weight_tensor, unsigned int sample, unsigned int index) {
   if (index < sample_count_testing_) {
-		index += sample_count_testing_;
+		index += sample_count_training_;
     bool success = true;
 
     // Find patch
-- 
2.43.0


From 0b4c1ebdf2ca4ecb389f406c6a7eb3ff16b12d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:12 +0000
Subject: [PATCH 18/44] fix: testing patches are mapped from the testing file

---
 src/util/TensorStreamPatchDataset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index 53ab65a..155cac0 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -442,7 +442,7 @@ TensorStreamPatchDataset* TensorStreamPatchDataset::CreateFromConfiguration (std
     }
 #ifdef BUILD_POSIX
     if(!no_mmap)
-      testing_fd = open(training_file.c_str(), O_RDONLY);
+      testing_fd = open(testing_file.c_str(), O_RDONLY);
     if(testing_fd < 0) {
       FATAL("Failed to load " << testing_file << "!");
     }
-- 
2.43.0


From 95150bbac49408b468638f848870ec79434ff2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:12 +0000
Subject: [PATCH 19/44] fix: extracted labels belong to the centre pixel of
 their patch

---
 src/util/Segmentation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/Segmentation.cpp b/src/util/Segmentation.cpp
index 866de3a..fc631ab 100644
--- a/src/util/Segmentation.cpp
+++ b/src/util/Segmentation.cpp
@@ -117,14 +117,14 @@ void Segmentation::ExtractLabels (const int patchsize_x,
   for (int px = 0; px < image_width; px++) {
     for (int py = 0; py < image_height; py++) {
       unsigned int element =  image_width * py + px;
-      const int ipy = (patchsize_y / 2) + 1;
+      const int ipy = patchsize_y / 2;
       int image_y = py + ipy - offsety;
       if (image_y < 0)
         image_y = -image_y;
       if (image_y >= image_height)
         image_y = -1 + image_height + image_height - image_y;
 
-      int ipx = (patchsize_x / 2) + 1;
+      int ipx = patchsize_x / 2;
       int image_x = px + ipx - offsetx;
       if (image_x < 0)
         image_x = -image_x;
-- 
2.43.0


From e3534664720bc3384c172bd4ed40ac7ba2772184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:12 +0000
Subject: [PATCH 20/44] fix: training on a dataset without training samples
 fails instead of reading out of bounds

---
 src/net/DatasetInputLayer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net/DatasetInputLayer.cpp b/src/net/DatasetInputLayer.cpp
index d3f4d70..7c315d4 100644
--- a/src/net/DatasetInputLayer.cpp
+++ b/src/net/DatasetInputLayer.cpp
@@ -160,6 +160,10 @@ void DatasetInputLayer::FeedForward() {
       }
 
     } else {
+      if (perm_.empty()) {
+        FATAL ("Dataset has no training samples!");
+      }
+
       // Select samples until one from the right subset is hit
       // Select a sample from the permutation
       selected_element = perm_[current_element_];
-- 
2.43.0


From c5ddb47d356d9bae95bcd285c116cbfd28c42a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:54 +0000
Subject: [PATCH 21/44] fix: nets with connections to nodes outside the net are
 not complete

---
 src/net/NetGraph.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index c7471a4..cefe265 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -85,8 +85,9 @@ bool NetGraph::IsComplete() const {
 			if (node->layer != nullptr) {
 				for (NetGraphConnection connection : node->input_connections) {
 					if (connection.node != nullptr) {
-						if (std::find(nodes_.begin(), nodes_.end(), node) == nodes_.end()) {
+						if (std::find(nodes_.begin(), nodes_.end(), connection.node) == nodes_.end()) {
 							LOGWARN << "Node has out-of-network connection: " << node->layer->GetLayerDescription();
+							node_okay = false;
 						}
 						else {
 							if (connection.buffer >= connection.node->output_buffers.size()) {
-- 
2.43.0


From 242af4b5e1c7c9a7cf81307999469aa5dd3f5ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:55 +0000
Subject: [PATCH 22/44] fix: null-pointer connections are reported instead of
 dereferenced when adding a node

---
 src/net/NetGraph.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index cefe265..797a1fc 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -58,6 +58,10 @@ void NetGraph::AddNode(NetGraphNode* node) {
   
   // Add backprop connection where appropiate
   for(NetGraphConnection& connection : node->input_connections) {
+    // IsComplete() reports null-pointer connections
+    if (connection.node == nullptr)
+      continue;
+
     if (connection.backprop && !connection.node->is_input) {
       NetGraphBackpropConnection backprop_connection(node, connection.buffer);
       connection.node->backprop_connections.push_back(backprop_connection);
-- 
2.43.0


From 4ca51723fbb7efd22c0be7a553a44b53d7f9ec35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:48 +0000
Subject: [PATCH 23/44] fix: QuickProp gives every weight its initial step, not
 only the first one

---
 src/net/Trainer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/net/Trainer.cpp b/src/net/Trainer.cpp
index a307c79..e2dcccb 100644
--- a/src/net/Trainer.cpp
+++ b/src/net/Trainer.cpp
@@ -498,7 +498,6 @@ void Trainer::ApplyGradients (datum lr) {
 
             if(first_iteration) {
               current_step = - epsilon_zero * current_slope;
-              first_iteration=false;
             } else {
               // A0
               if(std::abs(current_slope) <= epsilon_flat) {
@@ -540,6 +539,9 @@ void Trainer::ApplyGradients (datum lr) {
       dp++;
     }
   }
+
+  // Every weight has taken its initial step now
+  first_iteration = false;
   
   // Update quickprop stats
   if(settings_.optimization_method == QUICKPROP) {
-- 
2.43.0


From 524f8e0bd92cc5950dd2af9f20b76363b2dc39a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 24/44] fix: loading an empty parameter file leaves the
 parameters as they are

---
 src/net/NetGraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index 797a1fc..fbd96ba 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -411,7 +411,7 @@ void NetGraph::DeserializeParameters(std::istream& input, unsigned int last_laye
   for (unsigned int l = 0; l <= last_layer; l++) {
     Layer* layer = nodes_[l]->layer;
     for (unsigned int p = 0; p < layer->parameters().size(); p++) {
-      if (!input.good() || input.eof())
+      if (!input.good() || input.peek() == std::istream::traits_type::eof())
         break;
       unsigned int elements_before = layer->parameters() [p]->data.elements();
       layer->parameters() [p]->data.Deserialize (input);
-- 
2.43.0


From 9e890f29c8379b719b12991dce90abd5c6bb9305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 25/44] fix: a CSV file that cannot be opened is reported
 instead of written to

---
 src/util/CSVStatSink.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/CSVStatSink.cpp b/src/util/CSVStatSink.cpp
index 4f7ac90..a76d49b 100644
--- a/src/util/CSVStatSink.cpp
+++ b/src/util/CSVStatSink.cpp
@@ -73,6 +73,7 @@ void CSVStatSink::SetCurrentExperiment(std::string current_experiment) {
     LOGERROR << "Cannot open " << csv_filename << " for writing!";
     delete csv_stream_;
     csv_stream_ = nullptr;
+    return;
   }
   // Write header for hardcoded stats
   (*csv_stream_) << "IsTraining,Epoch,Iterations,SecondsElapsed,";
-- 
2.43.0


From 32a2f80617145501a8535237bee2979c312ded23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 26/44] fix: statistics registered late or generated early do
 not access missing values

---
 src/util/StatAggregator.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/util/StatAggregator.cpp b/src/util/StatAggregator.cpp
index e2aed6e..3efa2fe 100644
--- a/src/util/StatAggregator.cpp
+++ b/src/util/StatAggregator.cpp
@@ -22,6 +22,13 @@ unsigned int StatAggregator::RegisterStat(StatDescriptor* stat_descriptor)
 {
   stat_descriptors_.push_back(stat_descriptor);
   stat_descriptor->stat_id = stat_descriptor_count_;
+  
+  // Stats that are registered after initialization need a place, too
+  if(state_ != INIT) {
+    stats_.push_back(Stat());
+    stat_descriptor->init_function(stats_.back());
+  }
+
   return stat_descriptor_count_++;
 }
 
@@ -51,6 +58,10 @@ void StatAggregator::Initialize()
 
 void StatAggregator::Generate()
 {
+  // There is nothing to generate before initialization
+  if(state_ == INIT)
+    return;
+
   std::vector<Stat*> output_stats;
   
   for(unsigned int s = 0; s < stat_descriptor_count_; s++) {
-- 
2.43.0


From f55885a89b3043004ae273c1841291aedc6ea386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 27/44] fix: sinks are given the name of the current experiment
 with every snapshot

---
 src/util/StatAggregator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/StatAggregator.cpp b/src/util/StatAggregator.cpp
index 3efa2fe..45506c8 100644
--- a/src/util/StatAggregator.cpp
+++ b/src/util/StatAggregator.cpp
@@ -155,6 +155,8 @@ void StatAggregator::SetCurrentExperiment(std::string current_experiment) {
   if(state_!=STOPPED)
     return;
   
+  hardcoded_stats_.current_experiment = current_experiment;
+
   // Call all StatSinks' SetCurrentExperiment method
   for(unsigned int s = 0; s < stat_sink_count_; s++) {
     stat_sinks_[s]->SetCurrentExperiment(current_experiment);
-- 
2.43.0


From b459ab922747a28887f4150e0c92a499bba398a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 28/44] fix: binary statistics without true positives have an
 F1 value of zero

---
 src/net/BinaryStatLayer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/net/BinaryStatLayer.cpp b/src/net/BinaryStatLayer.cpp
index 19a1877..17a99d0 100644
--- a/src/net/BinaryStatLayer.cpp
+++ b/src/net/BinaryStatLayer.cpp
@@ -117,7 +117,7 @@ void BinaryStatLayer::UpdateAll() {
                ( true_positives_[t] + false_negatives_[t] );
 
     if ( precision >= 0 && recall >= 0 ) {
-      f1 = 2 * precision * recall / ( precision + recall );
+      f1 = precision + recall > 0 ? 2 * precision * recall / ( precision + recall ) : 0;
     }
 
     if ( f1 > fmax ) {
@@ -150,7 +150,7 @@ void BinaryStatLayer::UpdateAll() {
           ( true_positives_[tfmax] + false_negatives_[tfmax] );
 
   if ( precision >= 0 && recall >= 0 )
-    f1 = 2 * precision * recall / ( precision + recall );
+    f1 = precision + recall > 0 ? 2 * precision * recall / ( precision + recall ) : 0;
   
   acc = ( true_positives_[tfmax] + true_negatives_[tfmax] ) /
           ( true_positives_[tfmax] + true_negatives_[tfmax] +
-- 
2.43.0


From 9777f93c5469126e9ec3b9407c378e0062930220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 29/44] fix: binary statistics reject weights that do not match
 the output

---
 src/net/BinaryStatLayer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/net/BinaryStatLayer.cpp b/src/net/BinaryStatLayer.cpp
index 17a99d0..784c84f 100644
--- a/src/net/BinaryStatLayer.cpp
+++ b/src/net/BinaryStatLayer.cpp
@@ -199,6 +199,11 @@ bool BinaryStatLayer::CreateOutputs ( const std::vector< CombinedTensor* >& inpu
     return false;
   }
 
+  if ( first->data.elements() != third->data.elements() ) {
+    LOGERROR << "Need exactly one weight for every element!";
+    return false;
+  }
+
   // Needs no outputs
   return true;
 }
-- 
2.43.0


From dfec727e3d245e64843184635b47f419b9338d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 30/44] fix: confusion matrices reject inputs of different
 sizes or class counts

---
 src/net/ConfusionMatrixLayer.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/net/ConfusionMatrixLayer.cpp b/src/net/ConfusionMatrixLayer.cpp
index 623e8e0..a3c1ac5 100644
--- a/src/net/ConfusionMatrixLayer.cpp
+++ b/src/net/ConfusionMatrixLayer.cpp
@@ -145,6 +145,17 @@ bool ConfusionMatrixLayer::CreateOutputs (
     return false;
   }
 
+  if ( first->data.maps() != classes_ || second->data.maps() != classes_ ) {
+    LOGERROR << "Inputs need one map for every class!";
+    return false;
+  }
+
+  if ( first->data.width() != second->data.width() || first->data.height() != second->data.height() ||
+    first->data.width() != third->data.width() || first->data.height() != third->data.height() ) {
+    LOGERROR << "Inputs need the same size!";
+    return false;
+  }
+
   // Needs no outputs
   return true;
 }
-- 
2.43.0


From b85775a1f75ce1aa901bfcb023fe1b9ef146f0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:01 +0000
Subject: [PATCH 31/44] fix: confusion matrices can be reset before they are
 connected

---
 src/net/ConfusionMatrixLayer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net/ConfusionMatrixLayer.cpp b/src/net/ConfusionMatrixLayer.cpp
index a3c1ac5..fd26bc7 100644
--- a/src/net/ConfusionMatrixLayer.cpp
+++ b/src/net/ConfusionMatrixLayer.cpp
@@ -220,6 +220,10 @@ void ConfusionMatrixLayer::BackPropagate() {
 
 
 void ConfusionMatrixLayer::Reset() {
+  // There is nothing to reset before the layer is connected
+  if ( matrix_ == nullptr )
+    return;
+
   for ( unsigned int c = 0; c < ( classes_ * classes_ ); c++ ) {
     matrix_[c] = 0;
   }
-- 
2.43.0


From dd491ecae3d5844998af581ca551ff14d2b77cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:01 +0000
Subject: [PATCH 32/44] fix: confusion matrix statistics are reported for small
 total weights

---
 src/net/ConfusionMatrixLayer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/ConfusionMatrixLayer.cpp b/src/net/ConfusionMatrixLayer.cpp
index fd26bc7..f397946 100644
--- a/src/net/ConfusionMatrixLayer.cpp
+++ b/src/net/ConfusionMatrixLayer.cpp
@@ -68,7 +68,7 @@ ConfusionMatrixLayer::ConfusionMatrixLayer (
   
 void ConfusionMatrixLayer::UpdateAll() {
   // Don't call Update(...) when there are no samples to keep the null property of the value
-  if (total_ < 1.0)
+  if (total_ <= 0)
     return;
   
   long double orr = 0, arr = 0, iou = 0;
-- 
2.43.0


From a08655770d134a66c4c4a9a0b5cf646af16b1c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:49 +0000
Subject: [PATCH 33/44] fix: reading a configuration line without a value threw
 or used uninitialised data

---
 src/util/ConfigParsing.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util/ConfigParsing.cpp b/src/util/ConfigParsing.cpp
index 0a7da31..4908a5c 100644
--- a/src/util/ConfigParsing.cpp
+++ b/src/util/ConfigParsing.cpp
@@ -19,7 +19,7 @@ bool StartsWithIdentifier ( std::string line, std::string identifier ) {
 }
 
 unsigned int ParseUInt ( std::string line, std::string identifier ) {
-  if ( line.compare ( 0, identifier.length(), identifier ) == 0 ) {
+  if ( StartsWithIdentifier ( line, identifier ) && line.length() > identifier.length() ) {
     return std::atoi ( line.substr ( identifier.length() +1 ).c_str() );
   } else {
     return 0;
@@ -27,10 +27,10 @@ unsigned int ParseUInt ( std::string line, std::string identifier ) {
 }
 
 datum ParseDatum ( std::string line, std::string identifier ) {
-  if ( line.compare ( 0, identifier.length(), identifier ) == 0 ) {
+  if ( StartsWithIdentifier ( line, identifier ) && line.length() > identifier.length() ) {
     std::stringstream ss;
     ss << line.substr ( identifier.length() +1 );
-    datum d;
+    datum d = 0;
     ss >> d;
 //    return std::strtof ( line.substr ( identifier.length() +1 ).c_str() ,nullptr);
     return d;
@@ -40,10 +40,10 @@ datum ParseDatum ( std::string line, std::string identifier ) {
 }
 
 std::string ParseString ( std::string line, std::string identifier ) {
-  if ( line.compare ( 0, identifier.length(), identifier ) == 0 ) {
+  if ( StartsWithIdentifier ( line, identifier ) && line.length() > identifier.length() ) {
     return line.substr ( identifier.length() +1 );
   } else {
-    return 0;
+    return "";
   }
 }
 
@@ -140,7 +140,7 @@ void ParseDatumParamIfPossible ( std::string line, std::string identifier, datum
 
   std::stringstream ss;
   ss << size;
-  datum d;
+  datum d = 0;
   ss >> d;
   
   k = d; //std::atof ( size.c_str() );
-- 
2.43.0


From 69d6e08b93046d7ccd4ec52d4911e21e3c680b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:49 +0000
Subject: [PATCH 34/44] fix: convolution layers built from a descriptor
 accepted impossible settings, and a group count of zero divided by zero

---
 src/net/ConvolutionLayer.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/net/ConvolutionLayer.cpp b/src/net/ConvolutionLayer.cpp
index 0b6e45c..5bfc25f 100644
--- a/src/net/ConvolutionLayer.cpp
+++ b/src/net/ConvolutionLayer.cpp
@@ -53,7 +53,7 @@ ConvolutionLayer::ConvolutionLayer (const unsigned int kwidth,
     FATAL("Stride needs to be at least 1!");
   }
   
-  if((output_maps_ % group) != 0) {
+  if(group_ == 0 || (output_maps_ % group_) != 0) {
     FATAL("Output maps need to divide group count");
   }
   
@@ -92,7 +92,17 @@ ConvolutionLayer::ConvolutionLayer(std::string configuration) :
   ParseDatumParamIfPossible (configuration, "llr", local_lr);
   ParseCountIfPossible(configuration, "seed", seed);
   
-  // TODO Validation like in large constructor
+  if (kernel_width_ == 0 || kernel_height_ == 0) {
+    FATAL ("Kernels cannot have zero dimensions");
+  }
+  
+  if(stride_width_ == 0 || stride_height_ == 0) {
+    FATAL("Stride needs to be at least 1!");
+  }
+  
+  if(group_ == 0 || (output_maps_ % group_) != 0) {
+    FATAL("Output maps need to divide group count");
+  }
   
   SetLocalLearningRate(local_lr);
 }
-- 
2.43.0


From 415cb466b4ccf4bba2c4705ee7f55aef8ebcfdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:49 +0000
Subject: [PATCH 35/44] fix: layer descriptors accepted backslashes in
 parameter names

---
 src/net/LayerFactory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/net/LayerFactory.cpp b/src/net/LayerFactory.cpp
index fc7195b..0f5d4c2 100644
--- a/src/net/LayerFactory.cpp
+++ b/src/net/LayerFactory.cpp
@@ -28,8 +28,8 @@ bool LayerFactory::IsValidDescriptor(std::string descriptor) {
   const std::string valid_descriptor_regex =
     "^[a-z]+(\\("
     "("
-    "[a-z]+=[a-zA-Z0-9\\.]+"
-    "( [a-z]+=[a-zA-Z0-9\\.]+)*"
+    "[a-z]+=[a-zA-Z0-9.]+"
+    "( [a-z]+=[a-zA-Z0-9.]+)*"
     ")?"
     "\\))?$";
 #ifdef BUILD_BOOST
-- 
2.43.0


From d0db2c496078ccff21b40dcb25a31b8eac57f22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:49 +0000
Subject: [PATCH 36/44] fix: configured nets used an uninitialised factor,
 unbalanced stacks were popped, and receptive fields in one direction only
 were not resized

---
 src/factory/ConfigurableFactory.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/factory/ConfigurableFactory.cpp b/src/factory/ConfigurableFactory.cpp
index 089101d..36f142a 100644
--- a/src/factory/ConfigurableFactory.cpp
+++ b/src/factory/ConfigurableFactory.cpp
@@ -82,7 +82,7 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
       line = line.substr (1);
 
       if (StartsWithIdentifier (line, "convolutional")) {
-        unsigned int kx, ky, stridex = 1, stridey = 1, padx = 0, pady = 0;
+        unsigned int kx = 1, ky = 1, stridex = 1, stridey = 1, padx = 0, pady = 0;
         
         ParseKernelSizeIfPossible (line, "stride", stridex, stridey);
         ParseKernelSizeIfPossible (line, "pad", padx, pady);
@@ -100,7 +100,7 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
       }
       
       if (StartsWithIdentifier (line, "maxpooling")) {
-        unsigned int kx, ky;
+        unsigned int kx = 1, ky = 1;
         ParseKernelSizeIfPossible (line, "size", kx, ky);
         LOGDEBUG << "Adding maxpooling layer to receptive field (" << kx << "," << ky << ")";
         factorx *= kx;
@@ -108,7 +108,7 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
       }
 
       if (StartsWithIdentifier (line, "downsampling")) {
-        unsigned int kx, ky;
+        unsigned int kx = 1, ky = 1;
         ParseKernelSizeIfPossible (line, "size", kx, ky);
         LOGDEBUG << "Adding down-sampling layer to receptive field (" << kx << "," << ky << ")";
         factorx *= kx;
@@ -116,7 +116,7 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
       }
       
       if (StartsWithIdentifier (line, "amaxpooling")) {
-        unsigned int kx, ky, sx, sy;
+        unsigned int kx = 1, ky = 1, sx, sy;
         ParseKernelSizeIfPossible (line, "size", kx, ky);
         sx = kx; sy = ky;
         ParseKernelSizeIfPossible (line, "stride", sx, sy);
@@ -164,7 +164,8 @@ bool ConfigurableFactory::AddLayers(NetGraph& net, NetGraphConnection data_layer
 
 	bool already_upscaled = (factorx == 1) && (factory == 1);
 
-  if (method_ == FCN && (receptive_field_x_ > 0) && (receptive_field_y_ > 0)) {
+  if (method_ == FCN && (receptive_field_x_ >= 0) && (receptive_field_y_ >= 0) &&
+      ((receptive_field_x_ > 0) || (receptive_field_y_ > 0))) {
 		ResizeLayer* rl = new ResizeLayer(receptive_field_x_, receptive_field_y_);
 		NetGraphNode* node = new NetGraphNode(rl, last_connection);
 		net.AddNode(node);
@@ -222,18 +223,30 @@ bool ConfigurableFactory::AddLayers(NetGraph& net, NetGraphConnection data_layer
      * STACK OPERATIONS
      */
     if (line.compare(0, 5, "pusha") == 0) {
+      if (stack_a_pos >= 63) {
+        FATAL("Stack a is full!");
+      }
       stack_a[++stack_a_pos] = last_connection;
     }
 
     if (line.compare(0, 5, "pushb") == 0) {
+      if (stack_b_pos >= 63) {
+        FATAL("Stack b is full!");
+      }
       stack_b[++stack_b_pos] = last_connection;
     }
     
     if (line.compare(0, 4, "popa") == 0) {
+      if (stack_a_pos < 0) {
+        FATAL("Stack a is empty!");
+      }
       last_connection = stack_a[stack_a_pos--];
     }
     
     if (line.compare(0, 4, "popb") == 0) {
+      if (stack_b_pos < 0) {
+        FATAL("Stack b is empty!");
+      }
       last_connection = stack_b[stack_b_pos--];
     }
     
-- 
2.43.0


From bcf582572f0eedc3091656d1c25703738cf8d83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 37/44] fix: painted predictions used the smallest positive
 score as the starting maximum

---
 src/util/Colorize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/Colorize.cpp b/src/util/Colorize.cpp
index 758df1f..b28d423 100644
--- a/src/util/Colorize.cpp
+++ b/src/util/Colorize.cpp
@@ -49,7 +49,7 @@ void Dataset::Colorize(Tensor& net_output_tensor, Tensor& target_tensor) {
        for(unsigned int y = 0; y < net_output_tensor.height(); y++) {
 	for(unsigned int x = 0; x < net_output_tensor.width(); x++) {
 	  unsigned int maxclass = 0;
-	  datum maxvalue = std::numeric_limits<datum>::min();
+	  datum maxvalue = std::numeric_limits<datum>::lowest();
 	  for(unsigned int c = 0; c < GetClasses(); c++) {
 	    const datum value = *net_output_tensor.data_ptr_const(x,y,c,sample);
 	    if(value > maxvalue) {
-- 
2.43.0


From 50ae45ab592e22da21ca8308e473a67d0b6afc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 38/44] fix: PNG reading and writing leaked the library handles
 and buffers

---
 src/util/PNGUtil.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/PNGUtil.cpp b/src/util/PNGUtil.cpp
index c0559e1..380f074 100644
--- a/src/util/PNGUtil.cpp
+++ b/src/util/PNGUtil.cpp
@@ -100,6 +100,7 @@ bool PNGUtil::LoadFromStream ( std::istream& stream, Tensor& tensor ) {
 
   if ( image_colors & PNG_COLOR_MASK_PALETTE ) {
     LOGERROR << "Unsupported color type: " << image_colors;
+    png_destroy_read_struct ( &png_handle, &png_info_handle, 0 );
     return false;
   }
 
@@ -268,6 +269,10 @@ bool PNGUtil::WriteToStream ( std::ostream& stream, Tensor& tensor ) {
   png_write_image(png_handle, row_pointers);
 
   png_write_end ( png_handle, NULL );
+  
+  delete[] row_pointers;
+  delete[] pixels;
+  png_destroy_write_struct ( &png_handle, &png_info_handle );
   return true;
 #endif
 }
-- 
2.43.0


From 47922db09a804625008dcee3eec0b06b65c4e0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 39/44] fix: JPG writing read outside tensors that are no
 single RGB picture, and leaked its buffers

---
 src/util/JPGUtil.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/util/JPGUtil.cpp b/src/util/JPGUtil.cpp
index 9c4cd99..60e9de2 100644
--- a/src/util/JPGUtil.cpp
+++ b/src/util/JPGUtil.cpp
@@ -26,18 +26,18 @@ bool JPGUtil::LoadFromFile (const std::string& file, Tensor& tensor) {
   return false;
 #else
   
-  // Create decompression object
-  jpeg_decompress_struct cinfo;
-  jpeg_error_mgr jerr;
-  cinfo.err = jpeg_std_error(&jerr);
-  jpeg_create_decompress(&cinfo);
-  
   FILE* in_file = fopen(file.c_str(), "rb");
   if(in_file == NULL) {
     LOGERROR << "Cannot open " << file;
     return false;
   }
   
+  // Create decompression object
+  jpeg_decompress_struct cinfo;
+  jpeg_error_mgr jerr;
+  cinfo.err = jpeg_std_error(&jerr);
+  jpeg_create_decompress(&cinfo);
+  
   jpeg_stdio_src(&cinfo, in_file);
   jpeg_read_header(&cinfo, true);
   
@@ -79,6 +79,16 @@ bool JPGUtil::WriteToFile ( const std::string& file, Tensor& tensor ) {
   LOGERROR << "JPG is not supported by this build!";
   return false;
 #else
+  if ( tensor.samples() != 1 ) {
+    LOGERROR << "Cannot write JPGs with more than 1 sample!";
+    return false;
+  }
+
+  if ( tensor.maps() != 3 ) {
+    LOGERROR << "Cannot write JPGs with channels != 3";
+    return false;
+  }
+  
   FILE* out_file = fopen(file.c_str(), "wb");
   if(out_file == NULL) {
     LOGERROR << "Cannot open " << file;
@@ -115,6 +125,8 @@ bool JPGUtil::WriteToFile ( const std::string& file, Tensor& tensor ) {
   }
   
   jpeg_finish_compress(&cinfo);
+  jpeg_destroy_compress(&cinfo);
+  delete[] row_pointer;
   fclose(out_file);
   return true;
 #endif
-- 
2.43.0


From 892252f1d1b4dc05836c0cfd696d9ea399facaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:11 +0000
Subject: [PATCH 40/44] fix: compressTensorStream stops after printing its
 usage

---
 tools/compressTensorStream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/compressTensorStream.cpp b/tools/compressTensorStream.cpp
index fc02079..590c293 100644
--- a/tools/compressTensorStream.cpp
+++ b/tools/compressTensorStream.cpp
@@ -15,6 +15,8 @@ int main(int argc, char** argv) {
   
   if(argc != 3) {
     LOGERROR << "USAGE: " << argv[0] << " <input (uncompressed) tensor stream> <output (compressed) tensor stream>";
+    LOGEND;
+    return -1;
   }
   
   std::string input_file_name(argv[1]);
-- 
2.43.0


From 37c7d9d4e020cddaff4507fa69de151736032749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:11 +0000
Subject: [PATCH 41/44] fix: direct RGB labels are read from grey pictures
 without leaving the tensor

---
 tools/makeCompressedTensorStream.cpp | 9 ++++++---
 tools/makeTensorStream.cpp           | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/tools/makeCompressedTensorStream.cpp b/tools/makeCompressedTensorStream.cpp
index 1f9d597..ad96d8b 100644
--- a/tools/makeCompressedTensorStream.cpp
+++ b/tools/makeCompressedTensorStream.cpp
@@ -119,9 +119,12 @@ int main ( int argc, char** argv ) {
       // no classes - interpret the label tensor input as the output (no class/color mapping)
        for ( unsigned int y = 0; y < label_rgb_tensor.height(); y++ ) {
         for ( unsigned int x = 0; x < label_rgb_tensor.width(); x++ ) {     
-          *label_tensor.data_ptr ( x,y,0,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,0,0 );
-          *label_tensor.data_ptr ( x,y,1,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,1,0 );
-          *label_tensor.data_ptr ( x,y,2,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,2,0 );
+          if ( label_rgb_tensor.maps() != 3 && label_rgb_tensor.maps() != 1 ) {
+            FATAL ( "Unsupported input channel count!" );
+          }
+
+          for ( unsigned int m = 0; m < 3; m++ )
+            *label_tensor.data_ptr ( x,y,m,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,label_rgb_tensor.maps() == 3 ? m : 0,0 );
         }
       }
     } else if(number_of_classes == 1) {
diff --git a/tools/makeTensorStream.cpp b/tools/makeTensorStream.cpp
index 2449178..f0760d8 100644
--- a/tools/makeTensorStream.cpp
+++ b/tools/makeTensorStream.cpp
@@ -115,9 +115,12 @@ int main ( int argc, char** argv ) {
       // no classes - interpret the label tensor input as the output (no class/color mapping)
        for ( unsigned int y = 0; y < label_rgb_tensor.height(); y++ ) {
         for ( unsigned int x = 0; x < label_rgb_tensor.width(); x++ ) {     
-          *label_tensor.data_ptr ( x,y,0,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,0,0 );
-          *label_tensor.data_ptr ( x,y,1,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,1,0 );
-          *label_tensor.data_ptr ( x,y,2,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,2,0 );
+          if ( label_rgb_tensor.maps() != 3 && label_rgb_tensor.maps() != 1 ) {
+            FATAL ( "Unsupported input channel count!" );
+          }
+
+          for ( unsigned int m = 0; m < 3; m++ )
+            *label_tensor.data_ptr ( x,y,m,0 ) = *label_rgb_tensor.data_ptr_const ( x,y,label_rgb_tensor.maps() == 3 ? m : 0,0 );
         }
       }
     } else if(number_of_classes == 1) {
-- 
2.43.0


From 1a3f61ac4dad4ab1453078a53d311c1f2f228995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:11 +0000
Subject: [PATCH 42/44] fix: tensorStreamTool reports a missing file instead of
 looping forever

---
 tools/tensorStreamTool.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/tensorStreamTool.cpp b/tools/tensorStreamTool.cpp
index 1e1a685..8e63289 100644
--- a/tools/tensorStreamTool.cpp
+++ b/tools/tensorStreamTool.cpp
@@ -25,6 +25,9 @@ int main(int argc, char* argv[]) {
   // Open tensor stream
   std::ifstream file_in(std::string(argv[1]), std::ios::in | std::ios::binary);
 
+  if (!file_in.good())
+    FATAL("Cannot open " << argv[1]);
+
   // Seek until eof to count tensors
   Conv::Tensor tensor;
   unsigned int tensors_in_file = 0;
-- 
2.43.0


From ec7a699f314e9b2475059af0b2e4ed5d7aa028c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:11 +0000
Subject: [PATCH 43/44] fix: classifyImage clears the spatial prior below the
 picture within its width and defines it for single columns and rows

---
 tools/classifyImage.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/classifyImage.cpp b/tools/classifyImage.cpp
index cc05e4a..6e2d58c 100644
--- a/tools/classifyImage.cpp
+++ b/tools/classifyImage.cpp
@@ -92,8 +92,8 @@ int main (int argc, char* argv[]) {
   // Write spatial prior data to helper tensor
   for (unsigned int y = 0; y < original_height; y++) {
     for (unsigned int x = 0; x < original_width; x++) {
-      *helper_tensor.data_ptr(x, y, 0, 0) = ((Conv::datum)x) / ((Conv::datum)original_width - 1);
-      *helper_tensor.data_ptr(x, y, 1, 0) = ((Conv::datum)y) / ((Conv::datum)original_height - 1);
+      *helper_tensor.data_ptr(x, y, 0, 0) = original_width > 1 ? ((Conv::datum)x) / ((Conv::datum)original_width - 1) : 0;
+      *helper_tensor.data_ptr(x, y, 1, 0) = original_height > 1 ? ((Conv::datum)y) / ((Conv::datum)original_height - 1) : 0;
     }
     for (unsigned int x = original_width; x < width; x++) {
       *helper_tensor.data_ptr(x, y, 0, 0) = 0;
@@ -101,7 +101,7 @@ int main (int argc, char* argv[]) {
     }
   }
   for (unsigned int y = original_height; y < height; y++) {
-    for (unsigned int x = 0; x < height; x++) {
+    for (unsigned int x = 0; x < width; x++) {
       *helper_tensor.data_ptr(x, y, 0, 0) = 0;
       *helper_tensor.data_ptr(x, y, 1, 0) = 0;
     }
-- 
2.43.0


From 9810b5ffab9a2c6a8d57e5442af6a520c7371772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:35 +0000
Subject: [PATCH 44/44] fix: count class weights not at all and once in
 tensorStreamStats

The weight a dataset delivers already contains the class weight, so the
statistics that ignore class weights contained it once and those that apply
it contained it squared.
---
 tools/tensorStreamStats.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/tensorStreamStats.cpp b/tools/tensorStreamStats.cpp
index b19f515..2749b47 100644
--- a/tools/tensorStreamStats.cpp
+++ b/tools/tensorStreamStats.cpp
@@ -54,8 +54,10 @@ int main(int argc, char* argv[]) {
         unsigned int pixel_class = label_tensor.PixelMaximum(x,y,0);
         Conv::datum weight = *weight_tensor.data_ptr_const(x,y);
         
-        pixel_counts[pixel_class] += (long double)weight;
-        pixel_counts_weighted[pixel_class] += (long double)(weight * class_weights[pixel_class]);
+        // The dataset has already multiplied the weight by the class weight
+        if(class_weights[pixel_class] != 0)
+          pixel_counts[pixel_class] += (long double)(weight / class_weights[pixel_class]);
+        pixel_counts_weighted[pixel_class] += (long double)weight;
       }
     }
   }
-- 
2.43.0

