From 094ed4d8785eba3615d2d4bde902790a52686c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:27 +0000
Subject: [PATCH 01/22] fix: size the block compressors' buffers for the worst
 case (heap overflow on small or incompressible fields)

---
 include/sz_compression_utils.hpp | 24 ++++++++++++++++++++++++
 src/sz_compress_3d.cpp           | 28 +++++++++++++++++-----------
 2 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/include/sz_compression_utils.hpp b/include/sz_compression_utils.hpp
index a335c15..b16f922 100644
--- a/include/sz_compression_utils.hpp
+++ b/include/sz_compression_utils.hpp
@@ -120,4 +120,28 @@ build_Huffman_tree(const int * type, size_t num_elements, size_t state_num);
 void
 Huffman_encode_tree_and_data(size_t state_num, const int * type, size_t num_elements, unsigned char*& compressed_pos);
 
+// upper bound of the bytes written by Huffman_encode_tree_and_data, including
+// the whole words that encode() stores beyond the last code
+inline size_t
+Huffman_encode_max_size(size_t state_num, size_t num_elements){
+	size_t num_symbols = (num_elements < state_num) ? num_elements : state_num;
+	// a tree of 2*num_symbols-1 nodes, each with two children, one symbol and one tag
+	size_t tree_size = 2 * num_symbols * (3*sizeof(unsigned int) + 1) + 1;
+	return 3*sizeof(size_t) + tree_size + num_elements*sizeof(int) + 2*sizeof(unsigned long);
+}
+
+// upper bound of the bytes written by convertIntArray2ByteArray_fast_1b_to_result_sz
+inline size_t
+bit_array_max_size(size_t length){
+	return length/8 + 1;
+}
+
+// upper bound of the bytes of a stream that holds a header of scalars, the
+// unpredictable data, and two Huffman sections (error bounds and data)
+template <typename T>
+inline size_t
+cp_compressed_max_size(size_t unpredictable_count, size_t eb_state_num, size_t eb_num, size_t data_state_num, size_t data_num){
+	return 16*sizeof(size_t) + unpredictable_count*sizeof(T) + Huffman_encode_max_size(eb_state_num, eb_num) + Huffman_encode_max_size(data_state_num, data_num);
+}
+
 #endif
diff --git a/src/sz_compress_3d.cpp b/src/sz_compress_3d.cpp
index 941ee10..0b86ef2 100644
--- a/src/sz_compress_3d.cpp
+++ b/src/sz_compress_3d.cpp
@@ -6,6 +6,16 @@
 #include "sz_optimize_quant_intervals.hpp"
 #include "sz_regression_utils.hpp"
 
+// upper bound of the bytes written for one compressed field
+template<typename T>
+static size_t
+block_compressed_max_size(size_t num_elements, size_t num_blocks, size_t unpredictable_count, size_t state_num, size_t reg_coeff_num){
+	// block size, precision, flag, radius, mean, and the two counts
+	size_t header_size = 2*sizeof(int) + sizeof(double) + sizeof(char) + sizeof(meanInfo<T>) + 2*sizeof(size_t);
+	size_t reg_size = sizeof(size_t) + reg_coeff_num*num_blocks*sizeof(float) + Huffman_encode_max_size(2*RegCoeffCapacity, reg_coeff_num*num_blocks);
+	return header_size + unpredictable_count*sizeof(T) + bit_array_max_size(num_blocks) + reg_size + Huffman_encode_max_size(state_num, num_elements);
+}
+
 // return regression count
 // use block-dependant lorenzo pred & quant
 template<typename T>
@@ -86,7 +96,7 @@ sz_compress_2d(const T * data, size_t r1, size_t r2, double precision, size_t& c
 	meanInfo<T> mean_info;// = optimize_quant_invl_2d(data, r1, r2, precision, capacity);
 	int intv_radius = (capacity >> 1);
 	int * type = (int *) malloc(size.num_elements * sizeof(int));
-	T * unpredictable_data = (T *) malloc((0.05*size.num_elements) * sizeof(T));
+	T * unpredictable_data = (T *) malloc(size.num_elements * sizeof(T));
 	unsigned char * indicator = (unsigned char *) malloc(size.num_blocks * sizeof(unsigned char));
 	T * unpredictable_data_pos = unpredictable_data;
 	int * reg_params_type = (int *) malloc(RegCoeffNum2d * size.num_blocks * sizeof(int));
@@ -95,8 +105,7 @@ sz_compress_2d(const T * data, size_t r1, size_t r2, double precision, size_t& c
 	size_t reg_count = prediction_and_quantization_2d_with_border_prediction(data, size, mean_info, precision, capacity, intv_radius, indicator, type, reg_params_type, reg_unpredictable_data_pos, unpredictable_data_pos);
 	size_t unpredictable_count = unpredictable_data_pos - unpredictable_data;
 	unsigned char * compressed = NULL;
-	// TODO: change to a better estimated size
-	size_t est_size = size.num_elements*sizeof(T)*1.2;
+	size_t est_size = block_compressed_max_size<T>(size.num_elements, size.num_blocks, unpredictable_count, 2*capacity, RegCoeffNum2d);
 	compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, size.block_size);
@@ -212,8 +221,7 @@ sz_compress_2d_with_eb(const T * data, const double * precisions, size_t r1, siz
 	size_t reg_count = prediction_and_quantization_2d_with_border_prediction_with_eb(data, precisions, size, mean_info, capacity, intv_radius, indicator, type, reg_params_type, reg_unpredictable_data_pos, unpredictable_data_pos);
 	size_t unpredictable_count = unpredictable_data_pos - unpredictable_data;
 	unsigned char * compressed = NULL;
-	// TODO: change to a better estimated size
-	size_t est_size = size.num_elements*sizeof(T)*1.2;
+	size_t est_size = block_compressed_max_size<T>(size.num_elements, size.num_blocks, unpredictable_count, 2*capacity, RegCoeffNum2d);
 	compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, size.block_size);
@@ -401,7 +409,7 @@ sz_compress_3d(const T * data, size_t r1, size_t r2, size_t r3, double precision
 	meanInfo<T> mean_info = optimize_quant_invl_3d(data, r1, r2, r3, precision, capacity);
 	int intv_radius = (capacity >> 1);
 	int * type = (int *) malloc(size.num_elements * sizeof(int));
-	T * unpredictable_data = (T *) malloc((0.05*size.num_elements) * sizeof(T));
+	T * unpredictable_data = (T *) malloc(size.num_elements * sizeof(T));
 	unsigned char * indicator = (unsigned char *) malloc(size.num_blocks * sizeof(unsigned char));
 	T * unpredictable_data_pos = unpredictable_data;
 	int * reg_params_type = (int *) malloc(RegCoeffNum3d * size.num_blocks * sizeof(int));
@@ -411,8 +419,7 @@ sz_compress_3d(const T * data, size_t r1, size_t r2, size_t r3, double precision
 			: prediction_and_quantization_3d_with_border_prediction(data, size, mean_info, precision, capacity, intv_radius, indicator, type, reg_params_type, reg_unpredictable_data_pos, unpredictable_data_pos);
 	size_t unpredictable_count = unpredictable_data_pos - unpredictable_data;
 	unsigned char * compressed = NULL;
-	// TODO: change to a better estimated size
-	size_t est_size = size.num_elements*sizeof(T)*1.2;
+	size_t est_size = block_compressed_max_size<T>(size.num_elements, size.num_blocks, unpredictable_count, 2*capacity, RegCoeffNum3d);
 	compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, size.block_size);
@@ -533,7 +540,7 @@ sz_compress_3d_with_eb(const T * data, const double * precisions, size_t r1, siz
 	meanInfo<T> mean_info;
 	int intv_radius = (capacity >> 1);
 	int * type = (int *) malloc(size.num_elements * sizeof(int));
-	T * unpredictable_data = (T *) malloc((0.05*size.num_elements) * sizeof(T));
+	T * unpredictable_data = (T *) malloc(size.num_elements * sizeof(T));
 	unsigned char * indicator = (unsigned char *) malloc(size.num_blocks * sizeof(unsigned char));
 	T * unpredictable_data_pos = unpredictable_data;
 	int * reg_params_type = (int *) malloc(RegCoeffNum3d * size.num_blocks * sizeof(int));
@@ -542,8 +549,7 @@ sz_compress_3d_with_eb(const T * data, const double * precisions, size_t r1, siz
 	size_t reg_count = prediction_and_quantization_3d_with_border_prediction_with_eb(data, precisions, size, mean_info, capacity, intv_radius, indicator, type, reg_params_type, reg_unpredictable_data_pos, unpredictable_data_pos);
 	size_t unpredictable_count = unpredictable_data_pos - unpredictable_data;
 	unsigned char * compressed = NULL;
-	// TODO: change to a better estimated size
-	size_t est_size = size.num_elements*sizeof(T)*1.2;
+	size_t est_size = block_compressed_max_size<T>(size.num_elements, size.num_blocks, unpredictable_count, 2*capacity, RegCoeffNum3d);
 	compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, size.block_size);
-- 
2.43.0


From 066eba68df2dcee33ddc0615dada950a3fccb553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:27 +0000
Subject: [PATCH 02/22] fix: size the vector-field compressors' buffers for the
 worst case (heap overflow on small or incompressible fields)

---
 src/sz_compress_cp_preserve_2d.cpp          | 14 +++++++-------
 src/sz_compress_cp_preserve_2d_bilinear.cpp |  2 +-
 src/sz_compress_cp_preserve_3d.cpp          |  8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index 94100d3..c16c840 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -232,7 +232,7 @@ sz_compress_cp_preserve_2d_offline(const T * U, const T * V, size_t r1, size_t r
 	}
 	free(eb);
 	printf("quantize eb done\n");
-	unsigned char * compressed_eb = (unsigned char *) malloc(2*num_elements*sizeof(int));
+	unsigned char * compressed_eb = (unsigned char *) malloc(Huffman_encode_max_size(2*1024, 2*num_elements));
 	unsigned char * compressed_eb_pos = compressed_eb; 
 	Huffman_encode_tree_and_data(2*1024, eb_quant_index, 2*num_elements, compressed_eb_pos);
 	size_t compressed_eb_size = compressed_eb_pos - compressed_eb;
@@ -334,7 +334,7 @@ sz_compress_cp_preserve_2d_offline_log(const T * U, const T * V, size_t r1, size
 		// *(eb_quant_index_pos ++) = eb_linear_quantize(eb[i], 5e-3);
 	}
 	// printf("quantize eb done\n");
-	unsigned char * compressed_eb = (unsigned char *) malloc(num_elements*sizeof(int));
+	unsigned char * compressed_eb = (unsigned char *) malloc(Huffman_encode_max_size(2*1024, num_elements));
 	unsigned char * compressed_eb_pos = compressed_eb; 
 	Huffman_encode_tree_and_data(2*1024, eb_quant_index, num_elements, compressed_eb_pos);
 	size_t compressed_eb_size = compressed_eb_pos - compressed_eb;
@@ -696,7 +696,7 @@ sz_compress_cp_preserve_2d_online(const T * U, const T * V, size_t r1, size_t r2
 	free(decompressed_U);
 	free(decompressed_V);
 	printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(cp_compressed_max_size<T>(unpred_data.size(), 2*1024, 2*num_elements, 2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
@@ -961,7 +961,7 @@ sz_compress_cp_preserve_2d_online_log(const T * U, const T * V, size_t r1, size_
 	free(decompressed_U);
 	free(decompressed_V);
 	// printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(2*sign_map_size + cp_compressed_max_size<T>(unpred_data.size(), 2*1024, num_elements, 2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
@@ -1224,7 +1224,7 @@ sz_compress_cp_preserve_2d_online_abs(const T * U, const T * V, size_t r1, size_
 	free(decompressed_U);
 	free(decompressed_V);
 	printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(cp_compressed_max_size<T>(unpred_data.size(), 2*1024, 2*num_elements, 2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
@@ -1512,7 +1512,7 @@ sz_compress_cp_preserve_2d_online_abs_relax_FN(const T * U, const T * V, size_t
 	free(decompressed_U);
 	free(decompressed_V);
 	printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(cp_compressed_max_size<T>(unpred_data.size(), 2*1024, 2*num_elements, 2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
@@ -1795,7 +1795,7 @@ sz3_compress_cp_preserve_2d_online_abs(const T * U, const T * V, size_t r1, size
 	free(decompressed_U);
 	free(decompressed_V);
 	printf("offsets eb_q, data_q: %ld %ld\n", eb_quant_index_pos - eb_quant_index, quant_index);
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(cp_compressed_max_size<T>(quantizer.size_est()/sizeof(T), 2*1024, num_elements, 2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
diff --git a/src/sz_compress_cp_preserve_2d_bilinear.cpp b/src/sz_compress_cp_preserve_2d_bilinear.cpp
index 370e3a7..110aa95 100644
--- a/src/sz_compress_cp_preserve_2d_bilinear.cpp
+++ b/src/sz_compress_cp_preserve_2d_bilinear.cpp
@@ -1052,7 +1052,7 @@ sz_compress_cp_preserve_2d_bilinear_online_log(const T * U, const T * V, size_t
 	free(decompressed_U);
 	free(decompressed_V);
 	// printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(2*sign_map_size + cp_compressed_max_size<T>(unpred_data.size(), 2*1024, num_elements, 2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
diff --git a/src/sz_compress_cp_preserve_3d.cpp b/src/sz_compress_cp_preserve_3d.cpp
index 58ce2dd..14885ce 100644
--- a/src/sz_compress_cp_preserve_3d.cpp
+++ b/src/sz_compress_cp_preserve_3d.cpp
@@ -546,7 +546,7 @@ sz_compress_cp_preserve_3d_offline_log(const T * U, const T * V, const T * W, si
 	free(decompressed_V);
 	free(decompressed_W);
 	// printf("offset eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, eb_zero_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(3*sign_map_size + cp_compressed_max_size<T>(eb_zero_data.size(), 2*256, num_elements, 2*capacity, data_quant_index_pos - data_quant_index));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
@@ -933,7 +933,7 @@ sz_compress_cp_preserve_3d_online_log(const T * U, const T * V, const T * W, siz
 	free(decompressed_V);
 	free(decompressed_W);
 	printf("offset eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, eb_zero_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(3*sign_map_size + cp_compressed_max_size<T>(eb_zero_data.size(), 2*256, num_elements, 2*capacity, data_quant_index_pos - data_quant_index));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
@@ -1115,7 +1115,7 @@ sz_compress_cp_preserve_3d_unstructured(int n, const T * points, const T * data,
 	free(dec_data);
 	free(log_data);
 	// printf("offset eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, eb_zero_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*n*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(sign_map_size + cp_compressed_max_size<T>(eb_zero_data.size(), 2*256, n, 2*capacity, data_quant_index_pos - data_quant_index));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
@@ -1452,7 +1452,7 @@ sz_compress_cp_preserve_3d_online_abs(const T * U, const T * V, const T * W, siz
 	free(decompressed_V);
 	free(decompressed_W);
 	printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(cp_compressed_max_size<T>(unpred_data.size(), 2*1024, num_elements, 2*capacity, data_quant_index_pos - data_quant_index));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
-- 
2.43.0


From c24535ad49d9d80cc099ce392da1f434dac1908c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 03/22] fix: count the stored threshold in the size of 2D
 offline streams (heap overflow)

---
 src/sz_compress_cp_preserve_2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index c16c840..9602f0e 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -243,7 +243,7 @@ sz_compress_cp_preserve_2d_offline(const T * U, const T * V, size_t r1, size_t r
 	printf("eb_size = %ld, u_size = %ld, v_size = %ld\n", compressed_eb_size, compressed_u_size, compressed_v_size);
 	free(eb_u);
 	free(eb_v);
-	compressed_size = sizeof(int) + sizeof(size_t) + compressed_eb_size + sizeof(size_t) + compressed_u_size + sizeof(size_t) + compressed_v_size;
+	compressed_size = sizeof(int) + sizeof(double) + sizeof(size_t) + compressed_eb_size + sizeof(size_t) + compressed_u_size + sizeof(size_t) + compressed_v_size;
 	unsigned char * compressed = (unsigned char *) malloc(compressed_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
-- 
2.43.0


From 73acd63e08376e96048f1c6755021014e20211ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:57 +0000
Subject: [PATCH 04/22] fix: skip unpredictable data by its element size when
 decompressing (double fields)

---
 src/sz_decompress_3d.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sz_decompress_3d.cpp b/src/sz_decompress_3d.cpp
index 6710b38..c9093f3 100644
--- a/src/sz_decompress_3d.cpp
+++ b/src/sz_decompress_3d.cpp
@@ -62,7 +62,7 @@ sz_decompress_2d(const unsigned char * compressed, size_t r1, size_t r2){
 	size_t unpredictable_count = 0;
 	read_variable_from_src(compressed_pos, unpredictable_count);
 	const T * unpredictable_data = (const T *) compressed_pos;
-	compressed_pos += unpredictable_count * sizeof(float);
+	compressed_pos += unpredictable_count * sizeof(T);
 	unsigned char * indicator = convertByteArray2IntArray_fast_1b_sz(size.num_blocks, compressed_pos, (size.num_blocks - 1)/8 + 1);
 	float * reg_params = NULL;
 	if(reg_count) reg_params = decode_regression_coefficients_2d(compressed_pos, reg_count, size.block_size, precision);
@@ -271,7 +271,7 @@ sz_decompress_3d(const unsigned char * compressed, size_t r1, size_t r2, size_t
 	size_t unpredictable_count = 0;
 	read_variable_from_src(compressed_pos, unpredictable_count);
 	const T * unpredictable_data = (const T *) compressed_pos;
-	compressed_pos += unpredictable_count * sizeof(float);
+	compressed_pos += unpredictable_count * sizeof(T);
 	unsigned char * indicator = convertByteArray2IntArray_fast_1b_sz(size.num_blocks, compressed_pos, (size.num_blocks - 1)/8 + 1);
 	float * reg_params = NULL;
 	if(reg_count) reg_params = decode_regression_coefficients(compressed_pos, reg_count, size.block_size, precision);
-- 
2.43.0


From 388b1df11cf8750a7de04e446333eb960d5f42eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:34 +0000
Subject: [PATCH 05/22] fix: allow empty Huffman sections (3D fields without
 any predictable point crashed)

---
 src/sz_compression_utils.cpp   | 2 ++
 src/sz_decompression_utils.cpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/sz_compression_utils.cpp b/src/sz_compression_utils.cpp
index 2fd36e5..f406d71 100644
--- a/src/sz_compression_utils.cpp
+++ b/src/sz_compression_utils.cpp
@@ -60,6 +60,8 @@ build_Huffman_tree(size_t state_num, const int * type, size_t num_elements){
 
 void
 Huffman_encode_tree_and_data(size_t state_num, const int * type, size_t num_elements, unsigned char*& compressed_pos){
+	// an empty section has no tree and takes no space
+	if(num_elements == 0) return;
 	HuffmanTree * huffman = build_Huffman_tree(state_num, type, num_elements);
 	size_t node_count = 0;
 	size_t i = 0;
diff --git a/src/sz_decompression_utils.cpp b/src/sz_decompression_utils.cpp
index 5637828..bd7be1c 100644
--- a/src/sz_decompression_utils.cpp
+++ b/src/sz_decompression_utils.cpp
@@ -91,6 +91,7 @@ convertByteArray2IntArray_fast_1b_sz(size_t intArrayLength, const unsigned char*
 // TODO: change compress_pos to const
 int *
 Huffman_decode_tree_and_data(size_t state_num, size_t num_elements, const unsigned char *& compressed_pos){
+	if(num_elements == 0) return NULL;
 	HuffmanTree* huffman = createHuffmanTree(state_num);
 	size_t node_count = 0;
 	read_variable_from_src(compressed_pos, node_count);
-- 
2.43.0


From 70204424bc401e3ece0620e106a81867f0f84854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:39 +0000
Subject: [PATCH 06/22] fix: do not write uninitialised padding of meanInfo
 into compressed streams

---
 include/sz_def.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sz_def.hpp b/include/sz_def.hpp
index 9d28edf..1d27b42 100644
--- a/include/sz_def.hpp
+++ b/include/sz_def.hpp
@@ -137,8 +137,10 @@ struct DSize_3d{
 template<typename T>
 struct meanInfo{
 	bool use_mean;
+	// explicit padding: the struct is written to the stream as it is
+	char padding[sizeof(T) - sizeof(bool)];
 	T mean;
-	meanInfo(bool use = false, T mean_ = 0){
+	meanInfo(bool use = false, T mean_ = 0) : padding() {
 		use_mean = use;
 		mean = mean_;
 	}
-- 
2.43.0


From c92dce7a3be44cd22057e9e06ddd615f260db07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:42 +0000
Subject: [PATCH 07/22] fix: release the quantised error bounds and the
 bilinear eb array (memory leaks)

---
 src/sz_compress_cp_preserve_2d.cpp          | 2 ++
 src/sz_compress_cp_preserve_2d_bilinear.cpp | 2 +-
 src/sz_decompress_cp_preserve_2d.cpp        | 2 ++
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index 9602f0e..6d74d82 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -235,6 +235,7 @@ sz_compress_cp_preserve_2d_offline(const T * U, const T * V, size_t r1, size_t r
 	unsigned char * compressed_eb = (unsigned char *) malloc(Huffman_encode_max_size(2*1024, 2*num_elements));
 	unsigned char * compressed_eb_pos = compressed_eb; 
 	Huffman_encode_tree_and_data(2*1024, eb_quant_index, 2*num_elements, compressed_eb_pos);
+	free(eb_quant_index);
 	size_t compressed_eb_size = compressed_eb_pos - compressed_eb;
 	size_t compressed_u_size = 0;
 	size_t compressed_v_size = 0;
@@ -337,6 +338,7 @@ sz_compress_cp_preserve_2d_offline_log(const T * U, const T * V, size_t r1, size
 	unsigned char * compressed_eb = (unsigned char *) malloc(Huffman_encode_max_size(2*1024, num_elements));
 	unsigned char * compressed_eb_pos = compressed_eb; 
 	Huffman_encode_tree_and_data(2*1024, eb_quant_index, num_elements, compressed_eb_pos);
+	free(eb_quant_index);
 	size_t compressed_eb_size = compressed_eb_pos - compressed_eb;
 	size_t compressed_u_size = 0;
 	size_t compressed_v_size = 0;
diff --git a/src/sz_compress_cp_preserve_2d_bilinear.cpp b/src/sz_compress_cp_preserve_2d_bilinear.cpp
index 110aa95..55bd81c 100644
--- a/src/sz_compress_cp_preserve_2d_bilinear.cpp
+++ b/src/sz_compress_cp_preserve_2d_bilinear.cpp
@@ -1046,7 +1046,7 @@ sz_compress_cp_preserve_2d_bilinear_online_log(const T * U, const T * V, size_t
 	}
     // printf("#Failed verification = %d\n", failed_verification);
 	// writefile("eb_2d.dat", eb, num_elements);
-	// free(eb);
+	free(eb);
 	free(log_U);
 	free(log_V);
 	free(decompressed_U);
diff --git a/src/sz_decompress_cp_preserve_2d.cpp b/src/sz_decompress_cp_preserve_2d.cpp
index 775ced3..5e4120f 100644
--- a/src/sz_decompress_cp_preserve_2d.cpp
+++ b/src/sz_decompress_cp_preserve_2d.cpp
@@ -41,6 +41,7 @@ sz_decompress_cp_preserve_2d_offline(const unsigned char * compressed, size_t r1
 	}
 	V = sz_decompress_2d_with_eb<T>(compressed_pos, eb, r1, r2);
 	free(eb);
+	free(type);
 }
 
 template
@@ -96,6 +97,7 @@ sz_decompress_cp_preserve_2d_offline_log(const unsigned char * compressed, size_
 	free(sign_map_u);
 	free(sign_map_v);
 	free(eb);
+	free(type);
 }
 
 template
-- 
2.43.0


From a076a2804520f671753eb33fc4610b4647c05e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:52 +0000
Subject: [PATCH 08/22] fix: report failed reads and writes instead of
 delivering partial data

---
 include/utils.hpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/utils.hpp b/include/utils.hpp
index fcdeb1d..ceadd92 100644
--- a/include/utils.hpp
+++ b/include/utils.hpp
@@ -17,10 +17,20 @@ Type * readfile(const char * file, size_t& num){
         return 0;
     }
     fin.seekg(0, std::ios::end);
-    const size_t num_elements = fin.tellg() / sizeof(Type);
+    const std::streamoff file_size = fin.tellg();
     fin.seekg(0, std::ios::beg);
+    if(!fin || (file_size < 0)){
+        std::cout << " Error, Couldn't get the size of the file" << "\n";
+        return 0;
+    }
+    const size_t num_elements = file_size / sizeof(Type);
     Type * data = (Type *) malloc(num_elements*sizeof(Type));
 	fin.read(reinterpret_cast<char*>(&data[0]), num_elements*sizeof(Type));
+    if(!fin){
+        std::cout << " Error, Couldn't read the file" << "\n";
+        free(data);
+        return 0;
+    }
 	fin.close();
 	num = num_elements;
 	return data;
@@ -34,9 +44,18 @@ void readfile_to_buffer(char * file, size_t& num, Type * data){
         return;
     }
     fin.seekg(0, std::ios::end);
-    const size_t num_elements = fin.tellg() / sizeof(Type);
+    const std::streamoff file_size = fin.tellg();
     fin.seekg(0, std::ios::beg);
+    if(!fin || (file_size < 0)){
+        std::cout << " Error, Couldn't get the size of the file" << "\n";
+        return;
+    }
+    const size_t num_elements = file_size / sizeof(Type);
     fin.read(reinterpret_cast<char*>(&data[0]), num_elements*sizeof(Type));
+    if(!fin){
+        std::cout << " Error, Couldn't read the file" << "\n";
+        return;
+    }
     fin.close();
     num = num_elements;
 }
@@ -46,6 +65,9 @@ void writefile(const char * file, Type * data, size_t num_elements){
 	std::ofstream fout(file, std::ios::binary);
 	fout.write(reinterpret_cast<const char*>(&data[0]), num_elements*sizeof(Type));
 	fout.close();
+	if(!fout){
+		std::cout << " Error, Couldn't write the file" << "\n";
+	}
 }
 
 template<typename Type>
-- 
2.43.0


From f7409dce38364e9486c0a9608d99b6d7324a4695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:52 +0000
Subject: [PATCH 09/22] fix: report zstd errors from the lossless stage instead
 of handing on undefined data

---
 src/sz_lossless.cpp | 51 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 47 insertions(+), 4 deletions(-)

diff --git a/src/sz_lossless.cpp b/src/sz_lossless.cpp
index 072c0e3..eb9a888 100644
--- a/src/sz_lossless.cpp
+++ b/src/sz_lossless.cpp
@@ -21,6 +21,13 @@ unsigned long sz_lossless_compress(int losslessCompressor, int level, unsigned c
 			estimatedCompressedSize = dataLength*1.2;
 		*compressBytes = (unsigned char*)malloc(estimatedCompressedSize);
 		outSize = ZSTD_compress(*compressBytes, estimatedCompressedSize, data, dataLength, level); //default setting of level is 3
+		if(ZSTD_isError(outSize))
+		{
+			printf("Error: lossless compression failed: %s\n", ZSTD_getErrorName(outSize));
+			free(*compressBytes);
+			*compressBytes = NULL;
+			outSize = 0;
+		}
 		break;
 	default:
 		printf("Error: Unrecognized lossless compressor in sz_lossless_compress()\n");
@@ -35,8 +42,14 @@ unsigned long sz_lossless_decompress(int losslessCompressor, unsigned char* comp
 	{
 	case ZSTD_COMPRESSOR:
 		*oriData = (unsigned char*)malloc(targetOriSize);
-		ZSTD_decompress(*oriData, targetOriSize, compressBytes, cmpSize);
-		outSize = targetOriSize;
+		outSize = ZSTD_decompress(*oriData, targetOriSize, compressBytes, cmpSize);
+		if(ZSTD_isError(outSize) || outSize != targetOriSize)
+		{
+			printf("Error: lossless decompression failed: %s\n", ZSTD_isError(outSize) ? ZSTD_getErrorName(outSize) : "unexpected size");
+			free(*oriData);
+			*oriData = NULL;
+			outSize = 0;
+		}
 		break;
 	default:
 		printf("Error: Unrecognized lossless compressor in sz_lossless_decompress()\n");
@@ -44,6 +57,30 @@ unsigned long sz_lossless_decompress(int losslessCompressor, unsigned char* comp
 	return outSize;
 }
 
+// decompress at most dstSize bytes; false if the data are damaged or end before that
+static bool decompress_first_bytes(unsigned char* dst, size_t dstSize, const unsigned char* src, size_t srcSize)
+{
+	ZSTD_DStream* stream = ZSTD_createDStream();
+	if(stream == NULL) return false;
+	ZSTD_outBuffer out = {dst, dstSize, 0};
+	ZSTD_inBuffer in = {src, srcSize, 0};
+	bool good = !ZSTD_isError(ZSTD_initDStream(stream));
+	while(good)
+	{
+		size_t in_pos = in.pos, out_pos = out.pos;
+		size_t remaining = ZSTD_decompressStream(stream, &out, &in);
+		if(ZSTD_isError(remaining)) good = false;
+		else if(remaining == 0) break;
+		else if(in.pos == in_pos && out.pos == out_pos)
+		{
+			good = (out.pos == out.size);
+			break;
+		}
+	}
+	ZSTD_freeDStream(stream);
+	return good;
+}
+
 unsigned long sz_lossless_decompress65536bytes(int losslessCompressor, unsigned char* compressBytes, unsigned long cmpSize, unsigned char** oriData)
 {
 	unsigned long outSize = 0;
@@ -52,8 +89,14 @@ unsigned long sz_lossless_decompress65536bytes(int losslessCompressor, unsigned
 	case ZSTD_COMPRESSOR:
 		*oriData = (unsigned char*)malloc(65536);
 		memset(*oriData, 0, 65536);
-		ZSTD_decompress(*oriData, 65536, compressBytes, cmpSize);	//the first 32768 bytes should be exact the same.
-		outSize = 65536;
+		if(!decompress_first_bytes(*oriData, 65536, compressBytes, cmpSize))	//the first 65536 bytes should be exact the same.
+		{
+			printf("Error: lossless decompression failed\n");
+			free(*oriData);
+			*oriData = NULL;
+		}
+		else
+			outSize = 65536;
 		break;
 	default:
 		printf("Error: Unrecognized lossless compressor\n");
-- 
2.43.0


From 6c47cdeb62d1f4f3d43f30a501990074bfcc0bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:17 +0000
Subject: [PATCH 10/22] fix: keep zeros and negative logarithms within the
 relative bound in the point-wise relative compressors

---
 src/sz_compress_pwr.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/sz_compress_pwr.cpp b/src/sz_compress_pwr.cpp
index 4365e11..e14da97 100644
--- a/src/sz_compress_pwr.cpp
+++ b/src/sz_compress_pwr.cpp
@@ -21,7 +21,8 @@ sz_compress_2d_pwr(const T * data, size_t r1, size_t r2, double precision, size_
 		max_data = MAX(max_data, data[i]);
 	}
 	T max_abs_log_data = 0;
-    if(min_data == 0) max_abs_log_data = fabs(log2(fabs(max_data)));
+    if(min_data == 0 && max_data == 0) max_abs_log_data = 0;
+    else if(min_data == 0) max_abs_log_data = fabs(log2(fabs(max_data)));
     else if(max_data == 0) max_abs_log_data = fabs(log2(fabs(min_data)));
     else max_abs_log_data = fabs(log2(fabs(min_data))) > fabs(log2(fabs(max_data))) ? fabs(log2(fabs(min_data))) : fabs(log2(fabs(max_data)));
     T min_log_data = max_abs_log_data;
@@ -40,16 +41,18 @@ sz_compress_2d_pwr(const T * data, size_t r1, size_t r2, double precision, size_
 	}
 	if(fabs(min_log_data) > max_abs_log_data) max_abs_log_data = fabs(min_log_data);
 	double log_precision = log2(1.0 + precision) - max_abs_log_data * std::numeric_limits<T>::epsilon();
+	// room for rounding, such that a restored zero is always below and a restored nonzero never below the threshold
+	double margin = 4 * (max_abs_log_data + 4) * std::numeric_limits<T>::epsilon();
 	for(size_t i=0; i<num_elements; i++){
 		if(data[i] == 0){
-			log_data[i] = min_log_data - 2.0001*log_precision;
+			log_data[i] = min_log_data - 2.0001*log_precision - 3*margin;
 		}
 	}
 	size_t log_compressed_size = 0;
 	unsigned char * log_compressed = sz_compress_2d(log_data, r1, r2, log_precision, log_compressed_size, BSIZE, block_independant);
     free(log_data);
 	size_t sign_size = (num_elements-1)/8 + 1;
-	T threshold = min_log_data - 1.0001*log_precision;
+	T threshold = min_log_data - 1.0001*log_precision - margin;
 	compressed_size = sizeof(T) + sign_size + log_compressed_size;
     unsigned char * final_compressed = (unsigned char *) malloc(compressed_size);
     unsigned char * final_compressed_pos = final_compressed;
@@ -82,7 +85,7 @@ sz_compress_2d_pwr_with_eb(const T * data, const double * ebs, double **final_lo
 	memset(signs, 0, num_elements);
 	// preprocess
     double * log_ebs = (double *) malloc(num_elements * sizeof(double));
-    T threshold = log2(fabs(data[0]));
+    T threshold = std::numeric_limits<T>::max();
 	for(size_t i=0; i<num_elements; i++){
 		if(data[i] < 0){
 			signs[i] = 1;
@@ -92,11 +95,13 @@ sz_compress_2d_pwr_with_eb(const T * data, const double * ebs, double **final_lo
 			log_data[i] = data[i];
 		if(log_data[i] > 0){
 			log_data[i] = log2(log_data[i]);
-			log_ebs[i] = log2(1.0 + ebs[i]) - log_data[i] * std::numeric_limits<T>::epsilon();
+			log_ebs[i] = log2(1.0 + ebs[i]) - fabs(log_data[i]) * std::numeric_limits<T>::epsilon();
 			log_ebs[i] = MAX(log_ebs[i], 0);
 			threshold = MIN(threshold, log_data[i] - 1.0001 * log_ebs[i]);
 		}
 	}
+	// zeros are marked by a value that no nonzero element can be restored to
+	threshold = nextafter(threshold, -std::numeric_limits<T>::max());
 	for(size_t i=0; i<num_elements; i++){
 		if(data[i] == 0){
 			log_data[i] = threshold;
-- 
2.43.0


From b8e6c9ee2eb61398255acabbfd610a9d8b3c69fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:17 +0000
Subject: [PATCH 11/22] fix: treat underivable or index-0 error bounds as
 lossless (out-of-bounds Huffman symbols, bound violations)

---
 include/sz_cp_preserve_utils.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/sz_cp_preserve_utils.hpp b/include/sz_cp_preserve_utils.hpp
index 094d65f..c744a3c 100644
--- a/include/sz_cp_preserve_utils.hpp
+++ b/include/sz_cp_preserve_utils.hpp
@@ -12,11 +12,17 @@ template<typename T>
 using unpred_vec = std::vector<T>;
 
 inline int eb_exponential_quantize(double& eb, const int base, const double log_of_base, const double threshold=std::numeric_limits<float>::epsilon()){
-	if(eb <= threshold){
+	// not positive, or NaN where the bound could not be derived
+	if(!(eb > threshold)){
 		eb = 0;
 		return 0;
 	}
 	int id = log2(eb / threshold)/log_of_base;
+	if(id == 0){
+		// index 0 stands for lossless in the decompressors
+		eb = 0;
+		return 0;
+	}
 	eb = pow(base, id) * threshold;
 	return id;
 }
-- 
2.43.0


From a501ec2bca7750e61932c99f3a591f8faf0d7244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:23 +0000
Subject: [PATCH 12/22] fix: take logarithms of double fields in double
 precision

---
 include/sz_cp_preserve_utils.hpp     | 2 +-
 src/sz_decompress_cp_preserve_2d.cpp | 4 ++--
 src/sz_decompress_cp_preserve_3d.cpp | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/sz_cp_preserve_utils.hpp b/include/sz_cp_preserve_utils.hpp
index c744a3c..9c4a4e0 100644
--- a/include/sz_cp_preserve_utils.hpp
+++ b/include/sz_cp_preserve_utils.hpp
@@ -144,7 +144,7 @@ log_transform(const T * data, unsigned char * sign, size_t n, bool verbose=false
 		sign[i] = 0;
 		if(data[i] != 0){
 			sign[i] = (data[i] > 0);
-			log_data[i] = (data[i] > 0) ? log2f(data[i]) : log2f(-data[i]); 
+			log_data[i] = (data[i] > 0) ? std::log2(data[i]) : std::log2(-data[i]); 
 		}
 		else{
 			sign[i] = 0;
diff --git a/src/sz_decompress_cp_preserve_2d.cpp b/src/sz_decompress_cp_preserve_2d.cpp
index 5e4120f..9d1b13f 100644
--- a/src/sz_decompress_cp_preserve_2d.cpp
+++ b/src/sz_decompress_cp_preserve_2d.cpp
@@ -212,8 +212,8 @@ sz_decompress_cp_preserve_2d_online_log(const unsigned char * compressed, size_t
 				unpred_data_indices.insert(i*r2 + j);
 				T data_U = *(unpred_data_pos ++);
 				T data_V = *(unpred_data_pos ++);
-				*U_pos = (data_U == 0) ? -100 : log2f(fabs(data_U));
-				*V_pos = (data_V == 0) ? -100 : log2f(fabs(data_V));
+				*U_pos = (data_U == 0) ? -100 : std::log2(std::fabs(data_U));
+				*V_pos = (data_V == 0) ? -100 : std::log2(std::fabs(data_V));
 				eb_quant_index_pos ++;
 			}
 			else{
diff --git a/src/sz_decompress_cp_preserve_3d.cpp b/src/sz_decompress_cp_preserve_3d.cpp
index 617b92f..22bd9d2 100644
--- a/src/sz_decompress_cp_preserve_3d.cpp
+++ b/src/sz_decompress_cp_preserve_3d.cpp
@@ -58,7 +58,7 @@ sz_decompress_cp_preserve_3d_online_log(const unsigned char * compressed, size_t
 					unpred_data_indices.insert(index);
 					for(int p=0; p<3; p++){
 						T cur_data = *(eb_zero_data_pos ++);
-						*(data_pos[p]) = (cur_data == 0) ? -100 : log2f(fabs(cur_data));
+						*(data_pos[p]) = (cur_data == 0) ? -100 : std::log2(std::fabs(cur_data));
 					}
 					eb_quant_index_pos ++;
 				}
@@ -157,7 +157,7 @@ sz_decompress_cp_preserve_3d_unstructured(const unsigned char * compressed, int
 			unpred_data_indices.insert(i);
 			for(int p=0; p<3; p++){
 				T cur_data = *(eb_zero_data_pos ++);
-				data_pos[p] = (cur_data == 0) ? -100 : log2f(fabs(cur_data));
+				data_pos[p] = (cur_data == 0) ? -100 : std::log2(std::fabs(cur_data));
 			}
 			eb_quant_index_pos ++;
 		}
-- 
2.43.0


From 995e12cea9ea2e26a72585b9a87c1110a69af4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:23 +0000
Subject: [PATCH 13/22] fix: keep the sign map aligned after zeros in
 unstructured decompression

---
 src/sz_decompress_cp_preserve_3d.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sz_decompress_cp_preserve_3d.cpp b/src/sz_decompress_cp_preserve_3d.cpp
index 22bd9d2..39d72eb 100644
--- a/src/sz_decompress_cp_preserve_3d.cpp
+++ b/src/sz_decompress_cp_preserve_3d.cpp
@@ -186,7 +186,8 @@ sz_decompress_cp_preserve_3d_unstructured(const unsigned char * compressed, int
 		else{
 			for(int p=0; p<3; p++){
 				if(data[3*i + p] < -99) data[3*i + p] = 0;
-				else data[3*i + p] = *(sign_pos ++) ? exp2(data[3*i + p]) : -exp2(data[3*i + p]);
+				else data[3*i + p] = *sign_pos ? exp2(data[3*i + p]) : -exp2(data[3*i + p]);
+				sign_pos ++;
 			}
 		}
 	}
-- 
2.43.0


From b11e8a7352bba545432e77a34b4c1f02a3d633cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:19 +0000
Subject: [PATCH 14/22] fix: do not lose the error bound when an intermediate
 overflows to NaN

---
 include/sz_def.hpp                 |  3 ++-
 src/sz_compress_cp_preserve_3d.cpp | 38 +++++++++++++++---------------
 2 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/include/sz_def.hpp b/include/sz_def.hpp
index 1d27b42..01bb344 100644
--- a/include/sz_def.hpp
+++ b/include/sz_def.hpp
@@ -150,7 +150,8 @@ struct meanInfo{
 #define MIN(a, b) ((a<b)?(a):(b))
 template<class T>
 inline T MINF(const T& a, const T& b){
-    return (a<b) ? (a) : (b);
+    // a NaN (underivable bound) must not be dropped by later terms
+    return (a<b || a != a) ? (a) : (b);
 }
 
 #define RegCoeffNum2d 3
diff --git a/src/sz_compress_cp_preserve_3d.cpp b/src/sz_compress_cp_preserve_3d.cpp
index 14885ce..1209b1c 100644
--- a/src/sz_compress_cp_preserve_3d.cpp
+++ b/src/sz_compress_cp_preserve_3d.cpp
@@ -329,22 +329,22 @@ max_eb_to_keep_position_and_type_3d_offline(const T u0, const T u1, const T u2,
 		if(!flag[0]){
 			float eb1 = max_eb_to_keep_sign_3d_offline(p_m0, n_m0);
 			float eb2 = max_eb_to_keep_sign_3d_offline(p_m1 + p_m2 + p_m3, n_m1 + n_m2 + n_m3);
-			eb = MAX(eb, MIN(eb1, eb2));
+			eb = MAX(eb, MINF(eb1, eb2));
 		}
 		if(!flag[1]){
 			float eb1 = max_eb_to_keep_sign_3d_offline(p_m1, n_m1);
 			float eb2 = max_eb_to_keep_sign_3d_offline(p_m0 + p_m2 + p_m3, n_m0 + n_m2 + n_m3);
-			eb = MAX(eb, MIN(eb1, eb2));
+			eb = MAX(eb, MINF(eb1, eb2));
 		}
 		if(!flag[2]){
 			float eb1 = max_eb_to_keep_sign_3d_offline(p_m2, n_m2);
 			float eb2 = max_eb_to_keep_sign_3d_offline(p_m0 + p_m1 + p_m3, n_m0 + n_m1 + n_m3);
-			eb = MAX(eb, MIN(eb1, eb2));
+			eb = MAX(eb, MINF(eb1, eb2));
 		}
 		if(!flag[3]){
 			float eb1 = max_eb_to_keep_sign_3d_offline(p_m3, n_m3);
 			float eb2 = max_eb_to_keep_sign_3d_offline(p_m0 + p_m1 + p_m2, n_m0 + n_m1 + n_m2);
-			eb = MAX(eb, MIN(eb1, eb2));
+			eb = MAX(eb, MINF(eb1, eb2));
 		}
 		return eb;
 	}
@@ -392,9 +392,9 @@ sz_compress_cp_preserve_3d_offline_log(const T * U, const T * V, const T * W, si
 								cur_U_pos[offset[n][0]], cur_U_pos[offset[n][1]], cur_U_pos[offset[n][2]], *cur_U_pos,
 								cur_V_pos[offset[n][0]], cur_V_pos[offset[n][1]], cur_V_pos[offset[n][2]], *cur_V_pos,
 								cur_W_pos[offset[n][0]], cur_W_pos[offset[n][1]], cur_W_pos[offset[n][2]], *cur_W_pos);
-						eb_offline_compute_pos[0] = MIN(eb_offline_compute_pos[0], cur_eb);
+						eb_offline_compute_pos[0] = MINF(eb_offline_compute_pos[0], cur_eb);
 						for(int ind=0; ind<3; ind++){
-							eb_offline_compute_pos[offset[n][ind]] = MIN(eb_offline_compute_pos[offset[n][ind]], cur_eb);
+							eb_offline_compute_pos[offset[n][ind]] = MINF(eb_offline_compute_pos[offset[n][ind]], cur_eb);
 						}
 					}
 					eb_offline_compute_pos ++;
@@ -712,27 +712,27 @@ max_eb_to_keep_position_and_type_3d_online(const T u0, const T u1, const T u2, c
 		return 0;
 		double eb = 1;
 		double cur_eb = 0;
-		eb = MIN(eb, max_eb_to_keep_sign_3d_online(u3_0, v3_0, w3_0));
-		eb = MIN(eb, max_eb_to_keep_sign_3d_online(u3_1, v3_1, w3_1));
-		eb = MIN(eb, max_eb_to_keep_sign_3d_online(u3_2, v3_2, w3_2));
-		eb = MIN(eb, max_eb_to_keep_sign_3d_online(u3_0 + u3_1 + u3_2, v3_0 + v3_1 + v3_2, w3_0 + w3_1 + w3_2));
+		eb = MINF(eb, max_eb_to_keep_sign_3d_online(u3_0, v3_0, w3_0));
+		eb = MINF(eb, max_eb_to_keep_sign_3d_online(u3_1, v3_1, w3_1));
+		eb = MINF(eb, max_eb_to_keep_sign_3d_online(u3_2, v3_2, w3_2));
+		eb = MINF(eb, max_eb_to_keep_sign_3d_online(u3_0 + u3_1 + u3_2, v3_0 + v3_1 + v3_2, w3_0 + w3_1 + w3_2));
 		return eb;
 	}
 	else{
 		double eb = 0;
 		double cur_eb = 0;
 		if(!flag[0]){
-			cur_eb = MIN(max_eb_to_keep_sign_3d_online(u3_0, v3_0, w3_0), 
+			cur_eb = MINF(max_eb_to_keep_sign_3d_online(u3_0, v3_0, w3_0), 
 					max_eb_to_keep_sign_3d_online(u3_1 + u3_2, v3_1 + v3_2, w3_1 + w3_2, c_4));
 			eb = MAX(eb, cur_eb);
 		}
 		if(!flag[1]){
-			cur_eb = MIN(max_eb_to_keep_sign_3d_online(u3_1, v3_1, w3_1), 
+			cur_eb = MINF(max_eb_to_keep_sign_3d_online(u3_1, v3_1, w3_1), 
 					max_eb_to_keep_sign_3d_online(u3_0 + u3_2, v3_0 + v3_2, w3_0 + w3_2, c_4));
 			eb = MAX(eb, cur_eb);
 		}
 		if(!flag[2]){
-			cur_eb = MIN(max_eb_to_keep_sign_3d_online(u3_2, v3_2, w3_2), 
+			cur_eb = MINF(max_eb_to_keep_sign_3d_online(u3_2, v3_2, w3_2), 
 					max_eb_to_keep_sign_3d_online(u3_0 + u3_1, v3_0 + v3_1, w3_0 + w3_1, c_4));
 			eb = MAX(eb, cur_eb);
 		}
@@ -829,7 +829,7 @@ sz_compress_cp_preserve_3d_online_log(const T * U, const T * V, const T * W, siz
 					}
 					if(in_mesh){
 						int index = simplex_offset[n] + i*6*dim0_offset + j*6*dim1_offset + k*6; // TODO: define index for each simplex
-						required_eb = MIN(required_eb, max_eb_to_keep_position_and_type_3d_online(
+						required_eb = MINF(required_eb, max_eb_to_keep_position_and_type_3d_online(
 							cur_U_pos[offset[n][0]], cur_U_pos[offset[n][1]], cur_U_pos[offset[n][2]], *cur_U_pos,
 							cur_V_pos[offset[n][0]], cur_V_pos[offset[n][1]], cur_V_pos[offset[n][2]], *cur_V_pos,
 							cur_W_pos[offset[n][0]], cur_W_pos[offset[n][1]], cur_W_pos[offset[n][2]], *cur_W_pos));
@@ -1046,7 +1046,7 @@ sz_compress_cp_preserve_3d_unstructured(int n, const T * points, const T * data,
 			std::vector<int> inds{0, 1, 2, 3};
 			inds.erase(inds.begin() + pos);
 			const int data_offset[4] = {t.vertex[inds[0]]*3, t.vertex[inds[1]]*3, t.vertex[inds[2]]*3, t.vertex[pos]*3};
-			required_eb = MIN(required_eb, max_eb_to_keep_position_and_type_3d_online(
+			required_eb = MINF(required_eb, max_eb_to_keep_position_and_type_3d_online(
 				dec_data[data_offset[0]], dec_data[data_offset[1]], dec_data[data_offset[2]], dec_data[data_offset[3]],
 				dec_data[data_offset[0] + 1], dec_data[data_offset[1] + 1], dec_data[data_offset[2] + 1], dec_data[data_offset[3] + 1],
 				dec_data[data_offset[0] + 2], dec_data[data_offset[1] + 2], dec_data[data_offset[2] + 2], dec_data[data_offset[3] + 2]));
@@ -1216,17 +1216,17 @@ max_eb_to_keep_position_and_type_3d_online_abs(const T u0, const T u1, const T u
 		// 	eb = MAX(eb, cur_eb);
 		// }
 		if(!flag[0]){
-			cur_eb = MIN(max_eb_to_keep_sign_3d_online_abs(u3_0, v3_0, w3_0, M0), 
+			cur_eb = MINF(max_eb_to_keep_sign_3d_online_abs(u3_0, v3_0, w3_0, M0), 
 					max_eb_to_keep_sign_3d_online_abs(u3_1 + u3_2, v3_1 + v3_2, w3_1 + w3_2, M1 + M2 + M3));
 			eb = MAX(eb, cur_eb);
 		}
 		if(!flag[1]){
-			cur_eb = MIN(max_eb_to_keep_sign_3d_online_abs(u3_1, v3_1, w3_1, M1), 
+			cur_eb = MINF(max_eb_to_keep_sign_3d_online_abs(u3_1, v3_1, w3_1, M1), 
 					max_eb_to_keep_sign_3d_online_abs(u3_0 + u3_2, v3_0 + v3_2, w3_0 + w3_2, M0 + M2 + M3));
 			eb = MAX(eb, cur_eb);
 		}
 		if(!flag[2]){
-			cur_eb = MIN(max_eb_to_keep_sign_3d_online_abs(u3_2, v3_2, w3_2, M2), 
+			cur_eb = MINF(max_eb_to_keep_sign_3d_online_abs(u3_2, v3_2, w3_2, M2), 
 					max_eb_to_keep_sign_3d_online_abs(u3_0 + u3_1, v3_0 + v3_1, w3_0 + w3_1, M0 + M1 + M3));
 			eb = MAX(eb, cur_eb);
 		}
@@ -1369,7 +1369,7 @@ sz_compress_cp_preserve_3d_online_abs(const T * U, const T * V, const T * W, siz
 							}
 							else{
 								// std::cout << required_eb << " " << max_abs_eb << std::endl;
-								required_eb = MIN(required_eb, max_eb_to_keep_position_and_type_3d_online_abs(
+								required_eb = MINF(required_eb, max_eb_to_keep_position_and_type_3d_online_abs(
 									cur_U_pos[offset[n][0]], cur_U_pos[offset[n][1]], cur_U_pos[offset[n][2]], *cur_U_pos,
 									cur_V_pos[offset[n][0]], cur_V_pos[offset[n][1]], cur_V_pos[offset[n][2]], *cur_V_pos,
 									cur_W_pos[offset[n][0]], cur_W_pos[offset[n][1]], cur_W_pos[offset[n][2]], *cur_W_pos));
-- 
2.43.0


From d2b667ae762e1343a93fae045c9f354f4294669a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:12 +0000
Subject: [PATCH 15/22] fix: restore magnitudes below 2^-99 in the logarithmic
 compressors

---
 include/sz_cp_preserve_utils.hpp     | 15 +++++++++++++--
 src/sz_decompress_cp_preserve_2d.cpp | 13 +++++++------
 src/sz_decompress_cp_preserve_3d.cpp | 13 +++++++------
 3 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/include/sz_cp_preserve_utils.hpp b/include/sz_cp_preserve_utils.hpp
index 9c4a4e0..0899bc2 100644
--- a/include/sz_cp_preserve_utils.hpp
+++ b/include/sz_cp_preserve_utils.hpp
@@ -136,6 +136,17 @@ inline void accumulate(const T value, double& positive, double& negative){
 	else negative += - value;
 }
 
+// logarithm that stands for zero: below the logarithm of every nonzero value, with room for the error bound
+template<typename T>
+inline T log_of_zero(){
+	return std::numeric_limits<T>::min_exponent - std::numeric_limits<T>::digits - 6;
+}
+
+template<typename T>
+inline bool is_log_of_zero(const T value){
+	return value < log_of_zero<T>() + 3;
+}
+
 template<typename T>
 T *
 log_transform(const T * data, unsigned char * sign, size_t n, bool verbose=false){
@@ -148,7 +159,7 @@ log_transform(const T * data, unsigned char * sign, size_t n, bool verbose=false
 		}
 		else{
 			sign[i] = 0;
-			log_data[i] = -100; //TODO???
+			log_data[i] = log_of_zero<T>();
 		}
 	}
 	return log_data;
@@ -167,7 +178,7 @@ log_transform(const T * data, unsigned char * sign, unsigned char * zero, size_t
 		}
 		else{
 			sign[i] = 0;
-			log_data[i] = -100; //TODO???
+			log_data[i] = log_of_zero<T>();
 			zero[i] = 1;
 		}
 	}
diff --git a/src/sz_decompress_cp_preserve_2d.cpp b/src/sz_decompress_cp_preserve_2d.cpp
index 9d1b13f..7930a4b 100644
--- a/src/sz_decompress_cp_preserve_2d.cpp
+++ b/src/sz_decompress_cp_preserve_2d.cpp
@@ -1,5 +1,6 @@
 #include "sz_decompress_3d.hpp"
 #include "sz_decompress_cp_preserve_2d.hpp"
+#include "sz_cp_preserve_utils.hpp"
 #include "sz_decompress_block_processing.hpp"
 #include <limits>
 #include <unordered_set>
@@ -86,12 +87,12 @@ sz_decompress_cp_preserve_2d_offline_log(const unsigned char * compressed, size_
 	U = sz_decompress_2d_with_eb<T>(compressed_pos, eb, r1, r2);
 	compressed_pos += compressed_u_size;
 	for(int i=0; i<num_elements; i++){
-		if(U[i] < -99) U[i] = 0;
+		if(is_log_of_zero(U[i])) U[i] = 0;
 		else U[i] = sign_map_u[i] ? exp2(U[i]) : -exp2(U[i]);
 	}
 	V = sz_decompress_2d_with_eb<T>(compressed_pos, eb, r1, r2);
 	for(int i=0; i<num_elements; i++){
-		if(V[i] < -99) V[i] = 0;
+		if(is_log_of_zero(V[i])) V[i] = 0;
 		else V[i] = sign_map_v[i] ? exp2(V[i]) : -exp2(V[i]);
 	}
 	free(sign_map_u);
@@ -212,8 +213,8 @@ sz_decompress_cp_preserve_2d_online_log(const unsigned char * compressed, size_t
 				unpred_data_indices.insert(i*r2 + j);
 				T data_U = *(unpred_data_pos ++);
 				T data_V = *(unpred_data_pos ++);
-				*U_pos = (data_U == 0) ? -100 : std::log2(std::fabs(data_U));
-				*V_pos = (data_V == 0) ? -100 : std::log2(std::fabs(data_V));
+				*U_pos = (data_U == 0) ? log_of_zero<T>() : std::log2(std::fabs(data_U));
+				*V_pos = (data_V == 0) ? log_of_zero<T>() : std::log2(std::fabs(data_V));
 				eb_quant_index_pos ++;
 			}
 			else{
@@ -241,9 +242,9 @@ sz_decompress_cp_preserve_2d_online_log(const unsigned char * compressed, size_t
 			V[i] = *(unpred_data_pos++);
 		}
 		else{
-			if(U[i] < -99) U[i] = 0;
+			if(is_log_of_zero(U[i])) U[i] = 0;
 			else U[i] = sign_map_u[i] ? exp2(U[i]) : -exp2(U[i]);
-			if(V[i] < -99) V[i] = 0;
+			if(is_log_of_zero(V[i])) V[i] = 0;
 			else V[i] = sign_map_v[i] ? exp2(V[i]) : -exp2(V[i]);
 		}
 	}
diff --git a/src/sz_decompress_cp_preserve_3d.cpp b/src/sz_decompress_cp_preserve_3d.cpp
index 39d72eb..c532308 100644
--- a/src/sz_decompress_cp_preserve_3d.cpp
+++ b/src/sz_decompress_cp_preserve_3d.cpp
@@ -1,5 +1,6 @@
 #include "sz_decompress_3d.hpp"
 #include "sz_decompress_cp_preserve_2d.hpp"
+#include "sz_cp_preserve_utils.hpp"
 #include "sz_decompress_block_processing.hpp"
 #include <limits>
 #include <unordered_set>
@@ -58,7 +59,7 @@ sz_decompress_cp_preserve_3d_online_log(const unsigned char * compressed, size_t
 					unpred_data_indices.insert(index);
 					for(int p=0; p<3; p++){
 						T cur_data = *(eb_zero_data_pos ++);
-						*(data_pos[p]) = (cur_data == 0) ? -100 : std::log2(std::fabs(cur_data));
+						*(data_pos[p]) = (cur_data == 0) ? log_of_zero<T>() : std::log2(std::fabs(cur_data));
 					}
 					eb_quant_index_pos ++;
 				}
@@ -94,11 +95,11 @@ sz_decompress_cp_preserve_3d_online_log(const unsigned char * compressed, size_t
 			W[i] = *(eb_zero_data_pos++);
 		}
 		else{
-			if(U[i] < -99) U[i] = 0;
+			if(is_log_of_zero(U[i])) U[i] = 0;
 			else U[i] = sign_map_u[i] ? exp2(U[i]) : -exp2(U[i]);
-			if(V[i] < -99) V[i] = 0;
+			if(is_log_of_zero(V[i])) V[i] = 0;
 			else V[i] = sign_map_v[i] ? exp2(V[i]) : -exp2(V[i]);
-			if(W[i] < -99) W[i] = 0;
+			if(is_log_of_zero(W[i])) W[i] = 0;
 			else W[i] = sign_map_w[i] ? exp2(W[i]) : -exp2(W[i]);
 		}
 	}
@@ -157,7 +158,7 @@ sz_decompress_cp_preserve_3d_unstructured(const unsigned char * compressed, int
 			unpred_data_indices.insert(i);
 			for(int p=0; p<3; p++){
 				T cur_data = *(eb_zero_data_pos ++);
-				data_pos[p] = (cur_data == 0) ? -100 : std::log2(std::fabs(cur_data));
+				data_pos[p] = (cur_data == 0) ? log_of_zero<T>() : std::log2(std::fabs(cur_data));
 			}
 			eb_quant_index_pos ++;
 		}
@@ -185,7 +186,7 @@ sz_decompress_cp_preserve_3d_unstructured(const unsigned char * compressed, int
 		}
 		else{
 			for(int p=0; p<3; p++){
-				if(data[3*i + p] < -99) data[3*i + p] = 0;
+				if(is_log_of_zero(data[3*i + p])) data[3*i + p] = 0;
 				else data[3*i + p] = *sign_pos ? exp2(data[3*i + p]) : -exp2(data[3*i + p]);
 				sign_pos ++;
 			}
-- 
2.43.0


From 9aa48c6478f70b6680ef311a629478e7af07a9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:57 +0000
Subject: [PATCH 16/22] fix: interpolation quantizer overflowed int for distant
 predictions and passed a wild index to the entropy coder

---
 include/sz3_utils.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/sz3_utils.hpp b/include/sz3_utils.hpp
index e06288a..aad5719 100644
--- a/include/sz3_utils.hpp
+++ b/include/sz3_utils.hpp
@@ -12,7 +12,7 @@ public:
     int quantize(T data, T pred, T_eb eb) {
         if(eb == 0) return 0;
         T diff = data - pred;
-        int quant_index = (int) (fabs(diff) / eb) + 1;
+        int quant_index = quant_steps(diff, eb) + 1;
         if (quant_index < this->radius * 2) {
             quant_index >>= 1;
             int half_index = quant_index;
@@ -45,7 +45,7 @@ public:
         //     std::cout << data << " " << pred << " " << eb << std::endl;
         // }
         T diff = data - pred;
-        int quant_index = (int) (fabs(diff) / eb) + 1;
+        int quant_index = quant_steps(diff, eb) + 1;
         if (quant_index < this->radius * 2) {
             quant_index >>= 1;
             int half_index = quant_index;
@@ -81,7 +81,7 @@ public:
             return 0;
         }
         T diff = ori - pred;
-        int quant_index = (int) (fabs(diff) / eb) + 1;
+        int quant_index = quant_steps(diff, eb) + 1;
         if (quant_index < this->radius * 2) {
             quant_index >>= 1;
             int half_index = quant_index;
@@ -188,6 +188,12 @@ public:
 
 
 private:
+    // distance to the prediction in whole bounds; one that is out of range (or NaN) counts as unpredictable
+    int quant_steps(T diff, T_eb eb) const {
+        auto steps = fabs(diff) / eb;
+        return (steps < this->radius * 2) ? (int) steps : this->radius * 2;
+    }
+
     std::vector<T> unpred;
     size_t index = 0; // used in decompression only
     int radius; // quantization interval radius
-- 
2.43.0


From 3018c88ce2dc9a1960b566ee8422678d00a33cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 17/22] fix: cancellation in the bound that keeps a focus a
 focus could allow it to become a node

---
 src/sz_compress_cp_preserve_2d.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index 6d74d82..0a1661c 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -459,7 +459,8 @@ inline double max_eb_to_keep_type_online(const T u0, const T u1, const T u2, con
 			// 	printf("impossible as a*c is always less than 0\n");
 			// 	exit(0);
 			// }
-			eb = MINF(eb, (-b + sqrt(b*b - 4*a*c))/(2*a));
+			// written without the cancellation of -b + sqrt(...), which yields arbitrary bounds when a is small
+			eb = MINF(eb, 2*(-c)/(b + sqrt(b*b - 4*a*c)));
 
 			// check four corners
 			// double e1[2] = {-1, 1};
-- 
2.43.0


From ad9a241db490c228d90a04ed5cf6a7af640bbabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:25 +0000
Subject: [PATCH 18/22] fix: check the restored value against the bound in the
 relaxed online compressor

With a large Lorenzo prediction the float sum pred + 2*q*eb is rounded by more
than the slack left, and the restored value exceeded the requested bound. The
other online compressors already keep such values verbatim.
---
 src/sz_compress_cp_preserve_2d.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index 0a1661c..7254687 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -1450,6 +1450,11 @@ sz_compress_cp_preserve_2d_online_abs_relax_FN(const T * U, const T * V, size_t
 						int quant_index = (int)(quant_diff/2) + intv_radius;
 						data_quant_index_pos[k] = quant_index;
 						decompressed[k] = pred + 2 * (quant_index - intv_radius) * abs_eb; 
+						// check original data
+						if(fabs(decompressed[k] - cur_data) >= abs_eb){
+							unpred_flag = true;
+							break;
+						}
 					}
 					else{
 						unpred_flag = true;
-- 
2.43.0


From 2ccafcb2d67cc20128ca11b60390d118445bbd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 19/22] fix: sampling for the mean never ended on very thin 3D
 data

With fewer than nine values in one-element rows the sample distance is at most
two and each step went back by as much as it advanced (e.g. 5x1x1, 4x2x1).
---
 include/sz_optimize_quant_intervals.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sz_optimize_quant_intervals.hpp b/include/sz_optimize_quant_intervals.hpp
index 896ec65..b7c66ca 100644
--- a/include/sz_optimize_quant_intervals.hpp
+++ b/include/sz_optimize_quant_intervals.hpp
@@ -44,6 +44,8 @@ sample_rough_mean_3d(const T * data, size_t r1, size_t r2, size_t r3, size_t sam
 	size_t offset_count = 0;
 	size_t offset_count_2 = 0;
 	size_t mean_count = 0;
+	// each step may go back by two, so it has to be longer than that
+	if(sample_distance < 3) sample_distance = 3;
 	while(data_pos - data < len){
 		mean += *data_pos;
 		mean_count ++;
-- 
2.43.0


From 128e2e0a4491e66d47dd62ecab7ae4dc861a42bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 20/22] fix: fields of one or two points aborted the
 interpolation-based decompressor

The assertion in the quantizer's load compares against a placeholder that was
smaller than the section's own header.
---
 src/sz_decompress_cp_preserve_2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sz_decompress_cp_preserve_2d.cpp b/src/sz_decompress_cp_preserve_2d.cpp
index 7930a4b..8e83b98 100644
--- a/src/sz_decompress_cp_preserve_2d.cpp
+++ b/src/sz_decompress_cp_preserve_2d.cpp
@@ -336,7 +336,7 @@ sz3_decompress_cp_preserve_2d_online(const unsigned char * compressed, size_t r1
 	read_variable_from_src(compressed_pos, capacity);
 	int interpolation_level = (uint) ceil(log2(max(r1, r2)));
 	auto quantizer = VariableEBLinearQuantizer<T, T>(capacity>>1);
-	size_t remaining_length = num_elements*sizeof(T);//placeholder
+	size_t remaining_length = sizeof(uint8_t) + sizeof(int) + sizeof(size_t) + 2*num_elements*sizeof(T);//placeholder: most that the section can take
 	quantizer.load(compressed_pos, remaining_length);
 
 	int * eb_quant_index = Huffman_decode_tree_and_data(2*1024, num_elements, compressed_pos);
-- 
2.43.0


From b124a88e5bafeb134ec919f2c84eac1c8c031669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 21/22] fix: bounds of values near the largest double
 overflowed the bound quantiser and crashed the entropy coder

---
 include/sz_cp_preserve_utils.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/sz_cp_preserve_utils.hpp b/include/sz_cp_preserve_utils.hpp
index 0899bc2..3883108 100644
--- a/include/sz_cp_preserve_utils.hpp
+++ b/include/sz_cp_preserve_utils.hpp
@@ -17,7 +17,10 @@ inline int eb_exponential_quantize(double& eb, const int base, const double log_
 		eb = 0;
 		return 0;
 	}
-	int id = log2(eb / threshold)/log_of_base;
+	// the ratio, and its power in the decompressors, must stay finite
+	const double max_ratio = std::numeric_limits<double>::max() / 2;
+	const double ratio = eb / threshold;
+	int id = log2((ratio < max_ratio) ? ratio : max_ratio)/log_of_base;
 	if(id == 0){
 		// index 0 stands for lossless in the decompressors
 		eb = 0;
-- 
2.43.0


From 2b7a13505a6bcd0eec708d8e3ea6b132f5a1bb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 22/22] fix: the largest values were restored as infinity by
 the logarithmic modes

---
 include/sz_def.hpp                          |  8 ++++++++
 src/sz_compress_cp_preserve_2d.cpp          |  4 ++--
 src/sz_compress_cp_preserve_2d_bilinear.cpp |  8 ++++----
 src/sz_compress_cp_preserve_3d.cpp          | 18 +++++++++---------
 src/sz_decompress_cp_preserve_2d.cpp        |  8 ++++----
 src/sz_decompress_cp_preserve_3d.cpp        |  8 ++++----
 src/sz_decompress_pwr.cpp                   |  4 ++--
 7 files changed, 33 insertions(+), 25 deletions(-)

diff --git a/include/sz_def.hpp b/include/sz_def.hpp
index 01bb344..796ecf5 100644
--- a/include/sz_def.hpp
+++ b/include/sz_def.hpp
@@ -7,6 +7,7 @@
 #include <cstdio>
 #include <cmath>
 #include <cstddef>
+#include <limits>
 #include "sz_huffman.hpp"
 #include <vector>
 
@@ -154,6 +155,13 @@ inline T MINF(const T& a, const T& b){
     return (a<b || a != a) ? (a) : (b);
 }
 
+// inverse of the logarithm; within its error bound the largest values must not be restored as infinity
+template<class T>
+inline T exp2_finite(const T x){
+    const double value = exp2((double) x);
+    return (value > std::numeric_limits<T>::max()) ? std::numeric_limits<T>::max() : (T) value;
+}
+
 #define RegCoeffNum2d 3
 #define RegCoeffNum3d 4
 #define RegErrThreshold 0.1
diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index 7254687..3a757a0 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -940,8 +940,8 @@ sz_compress_cp_preserve_2d_online_log(const T * U, const T * V, size_t r1, size_
 					// assign decompressed data
 					*cur_log_U_pos = decompressed[0];
 					*cur_log_V_pos = decompressed[1];
-					*cur_U_pos = (*cur_U_pos > 0) ? exp2(*cur_log_U_pos) : -exp2(*cur_log_U_pos);
-					*cur_V_pos = (*cur_V_pos > 0) ? exp2(*cur_log_V_pos) : -exp2(*cur_log_V_pos);
+					*cur_U_pos = (*cur_U_pos > 0) ? exp2_finite(*cur_log_U_pos) : -exp2_finite(*cur_log_U_pos);
+					*cur_V_pos = (*cur_V_pos > 0) ? exp2_finite(*cur_log_V_pos) : -exp2_finite(*cur_log_V_pos);
 				}
 			}
 			else{
diff --git a/src/sz_compress_cp_preserve_2d_bilinear.cpp b/src/sz_compress_cp_preserve_2d_bilinear.cpp
index 55bd81c..7f89319 100644
--- a/src/sz_compress_cp_preserve_2d_bilinear.cpp
+++ b/src/sz_compress_cp_preserve_2d_bilinear.cpp
@@ -889,8 +889,8 @@ sz_compress_cp_preserve_2d_bilinear_online_log(const T * U, const T * V, size_t
 					if(!unpred_flag){
 						bool verbose = false;
 						// if((fabs(i - 1688.66) < 1) && (fabs(j - 966.522) < 1)) verbose = true;
-						double decompressed_u = (cur_U_pos[0] > 0) ? exp2(decompressed[0]) : -exp2(decompressed[0]);
-						double decompressed_v = (cur_V_pos[0] > 0) ? exp2(decompressed[1]) : -exp2(decompressed[1]);
+						double decompressed_u = (cur_U_pos[0] > 0) ? exp2_finite(decompressed[0]) : -exp2_finite(decompressed[0]);
+						double decompressed_v = (cur_V_pos[0] > 0) ? exp2_finite(decompressed[1]) : -exp2_finite(decompressed[1]);
 						{
 							// k = 0
                             // need to deal with k separately due to different relative vertex positions
@@ -1028,8 +1028,8 @@ sz_compress_cp_preserve_2d_bilinear_online_log(const T * U, const T * V, size_t
 					// assign decompressed data
 					*cur_log_U_pos = decompressed[0];
 					*cur_log_V_pos = decompressed[1];
-					*cur_U_pos = (*cur_U_pos > 0) ? exp2(*cur_log_U_pos) : -exp2(*cur_log_U_pos);
-					*cur_V_pos = (*cur_V_pos > 0) ? exp2(*cur_log_V_pos) : -exp2(*cur_log_V_pos);
+					*cur_U_pos = (*cur_U_pos > 0) ? exp2_finite(*cur_log_U_pos) : -exp2_finite(*cur_log_U_pos);
+					*cur_V_pos = (*cur_V_pos > 0) ? exp2_finite(*cur_log_V_pos) : -exp2_finite(*cur_log_V_pos);
 				}
 			}
 			else{
diff --git a/src/sz_compress_cp_preserve_3d.cpp b/src/sz_compress_cp_preserve_3d.cpp
index 1209b1c..c6c210b 100644
--- a/src/sz_compress_cp_preserve_3d.cpp
+++ b/src/sz_compress_cp_preserve_3d.cpp
@@ -521,9 +521,9 @@ sz_compress_cp_preserve_3d_offline_log(const T * U, const T * V, const T * W, si
 						*cur_log_U_pos = decompressed[0];
 						*cur_log_V_pos = decompressed[1];
 						*cur_log_W_pos = decompressed[2];
-						*cur_U_pos = (*cur_U_pos > 0) ? exp2(*cur_log_U_pos) : -exp2(*cur_log_U_pos);
-						*cur_V_pos = (*cur_V_pos > 0) ? exp2(*cur_log_V_pos) : -exp2(*cur_log_V_pos);
-						*cur_W_pos = (*cur_W_pos > 0) ? exp2(*cur_log_W_pos) : -exp2(*cur_log_W_pos);
+						*cur_U_pos = (*cur_U_pos > 0) ? exp2_finite(*cur_log_U_pos) : -exp2_finite(*cur_log_U_pos);
+						*cur_V_pos = (*cur_V_pos > 0) ? exp2_finite(*cur_log_V_pos) : -exp2_finite(*cur_log_V_pos);
+						*cur_W_pos = (*cur_W_pos > 0) ? exp2_finite(*cur_log_W_pos) : -exp2_finite(*cur_log_W_pos);
 					}
 				}
 				else{
@@ -905,9 +905,9 @@ sz_compress_cp_preserve_3d_online_log(const T * U, const T * V, const T * W, siz
 						*cur_log_U_pos = decompressed[0];
 						*cur_log_V_pos = decompressed[1];
 						*cur_log_W_pos = decompressed[2];
-						*cur_U_pos = (*cur_U_pos > 0) ? exp2(*cur_log_U_pos) : -exp2(*cur_log_U_pos);
-						*cur_V_pos = (*cur_V_pos > 0) ? exp2(*cur_log_V_pos) : -exp2(*cur_log_V_pos);
-						*cur_W_pos = (*cur_W_pos > 0) ? exp2(*cur_log_W_pos) : -exp2(*cur_log_W_pos);
+						*cur_U_pos = (*cur_U_pos > 0) ? exp2_finite(*cur_log_U_pos) : -exp2_finite(*cur_log_U_pos);
+						*cur_V_pos = (*cur_V_pos > 0) ? exp2_finite(*cur_log_V_pos) : -exp2_finite(*cur_log_V_pos);
+						*cur_W_pos = (*cur_W_pos > 0) ? exp2_finite(*cur_log_W_pos) : -exp2_finite(*cur_log_W_pos);
 					}
 				}
 				else{
@@ -1095,9 +1095,9 @@ sz_compress_cp_preserve_3d_unstructured(int n, const T * points, const T * data,
 				log_data_pos[0] = decompressed[0];
 				log_data_pos[1] = decompressed[1];
 				log_data_pos[2] = decompressed[2];
-				dec_data_pos[0] = (dec_data_pos[0] > 0) ? exp2(log_data_pos[0]) : -exp2(log_data_pos[0]);
-				dec_data_pos[1] = (dec_data_pos[1] > 0) ? exp2(log_data_pos[1]) : -exp2(log_data_pos[1]);
-				dec_data_pos[2] = (dec_data_pos[2] > 0) ? exp2(log_data_pos[2]) : -exp2(log_data_pos[2]);
+				dec_data_pos[0] = (dec_data_pos[0] > 0) ? exp2_finite(log_data_pos[0]) : -exp2_finite(log_data_pos[0]);
+				dec_data_pos[1] = (dec_data_pos[1] > 0) ? exp2_finite(log_data_pos[1]) : -exp2_finite(log_data_pos[1]);
+				dec_data_pos[2] = (dec_data_pos[2] > 0) ? exp2_finite(log_data_pos[2]) : -exp2_finite(log_data_pos[2]);
 			}
 		}
 		else{
diff --git a/src/sz_decompress_cp_preserve_2d.cpp b/src/sz_decompress_cp_preserve_2d.cpp
index 8e83b98..2e46988 100644
--- a/src/sz_decompress_cp_preserve_2d.cpp
+++ b/src/sz_decompress_cp_preserve_2d.cpp
@@ -88,12 +88,12 @@ sz_decompress_cp_preserve_2d_offline_log(const unsigned char * compressed, size_
 	compressed_pos += compressed_u_size;
 	for(int i=0; i<num_elements; i++){
 		if(is_log_of_zero(U[i])) U[i] = 0;
-		else U[i] = sign_map_u[i] ? exp2(U[i]) : -exp2(U[i]);
+		else U[i] = sign_map_u[i] ? exp2_finite(U[i]) : -exp2_finite(U[i]);
 	}
 	V = sz_decompress_2d_with_eb<T>(compressed_pos, eb, r1, r2);
 	for(int i=0; i<num_elements; i++){
 		if(is_log_of_zero(V[i])) V[i] = 0;
-		else V[i] = sign_map_v[i] ? exp2(V[i]) : -exp2(V[i]);
+		else V[i] = sign_map_v[i] ? exp2_finite(V[i]) : -exp2_finite(V[i]);
 	}
 	free(sign_map_u);
 	free(sign_map_v);
@@ -243,9 +243,9 @@ sz_decompress_cp_preserve_2d_online_log(const unsigned char * compressed, size_t
 		}
 		else{
 			if(is_log_of_zero(U[i])) U[i] = 0;
-			else U[i] = sign_map_u[i] ? exp2(U[i]) : -exp2(U[i]);
+			else U[i] = sign_map_u[i] ? exp2_finite(U[i]) : -exp2_finite(U[i]);
 			if(is_log_of_zero(V[i])) V[i] = 0;
-			else V[i] = sign_map_v[i] ? exp2(V[i]) : -exp2(V[i]);
+			else V[i] = sign_map_v[i] ? exp2_finite(V[i]) : -exp2_finite(V[i]);
 		}
 	}
 	free(sign_map_u);
diff --git a/src/sz_decompress_cp_preserve_3d.cpp b/src/sz_decompress_cp_preserve_3d.cpp
index c532308..f67851b 100644
--- a/src/sz_decompress_cp_preserve_3d.cpp
+++ b/src/sz_decompress_cp_preserve_3d.cpp
@@ -96,11 +96,11 @@ sz_decompress_cp_preserve_3d_online_log(const unsigned char * compressed, size_t
 		}
 		else{
 			if(is_log_of_zero(U[i])) U[i] = 0;
-			else U[i] = sign_map_u[i] ? exp2(U[i]) : -exp2(U[i]);
+			else U[i] = sign_map_u[i] ? exp2_finite(U[i]) : -exp2_finite(U[i]);
 			if(is_log_of_zero(V[i])) V[i] = 0;
-			else V[i] = sign_map_v[i] ? exp2(V[i]) : -exp2(V[i]);
+			else V[i] = sign_map_v[i] ? exp2_finite(V[i]) : -exp2_finite(V[i]);
 			if(is_log_of_zero(W[i])) W[i] = 0;
-			else W[i] = sign_map_w[i] ? exp2(W[i]) : -exp2(W[i]);
+			else W[i] = sign_map_w[i] ? exp2_finite(W[i]) : -exp2_finite(W[i]);
 		}
 	}
 	free(sign_map_u);
@@ -187,7 +187,7 @@ sz_decompress_cp_preserve_3d_unstructured(const unsigned char * compressed, int
 		else{
 			for(int p=0; p<3; p++){
 				if(is_log_of_zero(data[3*i + p])) data[3*i + p] = 0;
-				else data[3*i + p] = *sign_pos ? exp2(data[3*i + p]) : -exp2(data[3*i + p]);
+				else data[3*i + p] = *sign_pos ? exp2_finite(data[3*i + p]) : -exp2_finite(data[3*i + p]);
 				sign_pos ++;
 			}
 		}
diff --git a/src/sz_decompress_pwr.cpp b/src/sz_decompress_pwr.cpp
index 7107637..66b03c2 100644
--- a/src/sz_decompress_pwr.cpp
+++ b/src/sz_decompress_pwr.cpp
@@ -16,7 +16,7 @@ sz_decompress_2d_pwr(const unsigned char * compressed, size_t r1, size_t r2){
 	T * dec_data = sz_decompress_2d<T>(compressed_pos, r1, r2);
 	for(size_t i=0; i<num_elements; i++){
 		if(dec_data[i] < threshold) dec_data[i] = 0;
-		else dec_data[i] = exp2(dec_data[i]);
+		else dec_data[i] = exp2_finite(dec_data[i]);
 		if(signs[i]) dec_data[i] = -dec_data[i];
 	}
 	free(signs);
@@ -39,7 +39,7 @@ sz_decompress_2d_pwr_with_eb(const unsigned char * compressed, const double * lo
 	T * dec_data = sz_decompress_2d_with_eb<T>(compressed_pos, log_ebs, r1, r2);
 	for(size_t i=0; i<num_elements; i++){
 		if(dec_data[i] == threshold) dec_data[i] = 0;
-		else dec_data[i] = exp2((double)dec_data[i]);
+		else dec_data[i] = exp2_finite(dec_data[i]);
 		if(signs[i]) dec_data[i] = -dec_data[i];
 	}
 	free(signs);
-- 
2.43.0

