From b057b027dfb03ee12a7edc2dffbba6750c919e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:45 +0000
Subject: [PATCH 01/32] fix: fast_mser_v2 extraction shares out all patches to
 the four blocks, not always four patches

---
 basicimg/src/img_fast_mser_v2.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index f25c1c6..50f06b9 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -1645,8 +1645,10 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 	i32 one_block_mser_info_size = m_gray_order_region_size * 3 + 1;
 	i32 total_block_mser_info_size = one_block_mser_info_size * 4;
 
-	u32 partition_start_indexes[4] = {0, 1, 2, 3};
-	u32 partition_stop_indexes[4] = {1, 2, 3, 4};
+	//the patches are shared out to four blocks, whatever their number is
+	u32 patch_number = (u32)m_pinfo.size();
+	u32 partition_start_indexes[4] = {0, patch_number / 4, patch_number * 2 / 4, patch_number * 3 / 4};
+	u32 partition_stop_indexes[4] = {patch_number / 4, patch_number * 2 / 4, patch_number * 3 / 4, patch_number};
 
 	i32** region_heap = (i32**)malloc(sizeof(i32*) * (i32)m_pinfo.size());
 	i32 total_region_size = 0;
-- 
2.43.0


From 27c30664ed2e92db7aa09f5b3a506210a051b1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:59 +0000
Subject: [PATCH 02/32] fix: fast_mser_v2 visits all eight neighbours with
 8-connectivity

---
 basicimg/src/img_fast_mser_v2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 50f06b9..7b91aaf 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -273,7 +273,7 @@ void img_fast_mser_v2::make_tree_patch(parallel_info& pinfo, const mt_mat& img,
 		nbr_index = *points >> m_dir_shift;
 
 		// take tour of all the 4 or 8 directions
-		while (nbr_index <= 4) {
+		while (nbr_index < (i32)(m_boundary_pixel >> m_dir_shift)) {
 			// get the neighbor
 			nbr_points = points + dir[nbr_index];
 
-- 
2.43.0


From eb1cbf56cc457e5668bd86aac4df070ffeb5198d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:59 +0000
Subject: [PATCH 03/32] fix: fast_mser_v2 counts inverted gray levels when only
 maxima are extracted

---
 basicimg/src/img_fast_mser_v2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 7b91aaf..a80342b 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -429,7 +429,7 @@ void img_fast_mser_v2::process_tree_patch(parallel_info& pinfo, const mt_mat& im
 				*points++ = m_boundary_pixel;
 
 				for (col = 0; col < pinfo.m_width; ++col) {
-					level_size[*img_data]++;
+					level_size[*img_data ^ gray_mask]++;
 					*extended_image_data++ = *img_data++;
 					*points++ = 0;
 				}
-- 
2.43.0


From 43a567d32f198189042f9790c67120d253014b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:59 +0000
Subject: [PATCH 04/32] fix: fast_mser_v2 joins the bounding boxes of the
 blocks on both sides

---
 basicimg/src/img_fast_mser_v2.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index a80342b..9f9a79e 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -1988,13 +1988,17 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 			} else {
 				if (mser_block_info_pointer[k]->left < left) {
 					left = mser_block_info_pointer[k]->left;
-				} else if (mser_block_info_pointer[k]->right > right) {
+				}
+
+				if (mser_block_info_pointer[k]->right > right) {
 					right = mser_block_info_pointer[k]->right;
 				}
 
 				if (mser_block_info_pointer[k]->top < top) {
 					top = mser_block_info_pointer[k]->top;
-				} else if (mser_block_info_pointer[k]->bottom > bottom) {
+				}
+
+				if (mser_block_info_pointer[k]->bottom > bottom) {
 					bottom = mser_block_info_pointer[k]->bottom;
 				}
 			}
-- 
2.43.0


From 0e0d988750c2049a1b9d19578129dc926efacd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:33 +0000
Subject: [PATCH 05/32] fix: fast_mser_v2 reports the gray level of the image
 for maxima

---
 basicimg/src/img_fast_mser_v2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 9f9a79e..c59497f 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -1878,7 +1878,7 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 			mser_block_info_pointer[3]->block_self_pixel_size = cur_mser.m_points[3].m_x;
 		}
 
-		cur_mser.m_gray_level = cur_region->m_gray_level;
+		cur_mser.m_gray_level = cur_region->m_gray_level ^ gray_mask;
 		cur_region->m_mser_index = i;
 
 		mser_block_info_pointer[0]->left = -1;
-- 
2.43.0


From 967fc07a816c52b39a8033928989b44842b32e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:42 +0000
Subject: [PATCH 06/32] fix: sys_alg_analyzer::release reads the statistics
 under the lock

---
 basicsys/src/sys_alg_analyzer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/basicsys/src/sys_alg_analyzer.cpp b/basicsys/src/sys_alg_analyzer.cpp
index 17cb9a2..0260d32 100644
--- a/basicsys/src/sys_alg_analyzer.cpp
+++ b/basicsys/src/sys_alg_analyzer.cpp
@@ -7,7 +7,12 @@ map<string, i64> sys_alg_analyzer::m_info;
 void* sys_alg_analyzer::m_mutex = NULL;
 
 void sys_alg_analyzer::release() {
+	if (m_mutex == NULL) {
+		return;
+	}
+
 	if (basiclog::log_logger::get_logger() != NULL) {
+		sys_thread_lock lock(m_mutex);
 		basiclog::log_logger::get_logger()->print("sys_alg_analyzer", "sys_alg_analyzer", sys_strcombine()<<m_info, __FILE__, __LINE__);
 	}
 
-- 
2.43.0


From 7be60f3aa5dc6abe9e492fd1d8d0a124cfc63923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:42 +0000
Subject: [PATCH 07/32] fix: mt_mat::reference_number reads the counter under
 the lock

---
 basicmath/include/mt_mat.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicmath/include/mt_mat.h b/basicmath/include/mt_mat.h
index 705efe2..bd03ca4 100644
--- a/basicmath/include/mt_mat.h
+++ b/basicmath/include/mt_mat.h
@@ -97,6 +97,7 @@ class mt_mat {
 				return 0;
 			}
 
+			sys_thread_lock lock(m_reference->m_ref_mutex);
 			return m_reference->m_ref_number;
 		}
 			 
-- 
2.43.0


From 271d773b64cb2e3bdc649fad7a008e59e0c08ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:42 +0000
Subject: [PATCH 08/32] fix: mt_mat_cache holds its lock while it uses its
 state

---
 basicmath/src/mt_mat_cache.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/basicmath/src/mt_mat_cache.cpp b/basicmath/src/mt_mat_cache.cpp
index 99c500b..0b6b49a 100644
--- a/basicmath/src/mt_mat_cache.cpp
+++ b/basicmath/src/mt_mat_cache.cpp
@@ -19,6 +19,7 @@ mt_auto_mat_cache::~mt_auto_mat_cache() {
 mt_mat_cache::mt_mat_cache() {
 	m_mutex = sys_thread_lock::create_mutex();
 	m_memory_size = 1024 * 1024 * 1024;
+	m_get_number = 0;
 	m_cache_number = 0;
 }
 
@@ -28,7 +29,7 @@ mt_mat_cache::~mt_mat_cache() {
 
 void mt_mat_cache::set_memory_size(i64 memory_size) {
 	{
-		sys_thread_lock (s_mat_cache.m_mutex);
+		sys_thread_lock lock(s_mat_cache.m_mutex);
 		s_mat_cache.m_memory_size = memory_size;
 
 		s_mat_cache.statistic_memory();
@@ -36,16 +37,18 @@ void mt_mat_cache::set_memory_size(i64 memory_size) {
 }
 
 i64 mt_mat_cache::get_memory_size() {
+	sys_thread_lock lock(s_mat_cache.m_mutex);
 	return s_mat_cache.m_memory_size;
 }
 
 void mt_mat_cache::output_cache_statistic() {
+	sys_thread_lock lock(s_mat_cache.m_mutex);
 	basiclog_info2("m_get_number: "<<s_mat_cache.m_get_number<<"m_cache_number: "<<s_mat_cache.m_cache_number);
 }
 
 void mt_mat_cache::enable_cache(b8 enable) {
 	{
-		sys_thread_lock (s_mat_cache.m_mutex);
+		sys_thread_lock lock(s_mat_cache.m_mutex);
 		map<u64, thread_data>::iterator td = s_mat_cache.m_thread_data.find(sys_os::current_thread_id());
 
 		if (td == s_mat_cache.m_thread_data.end()) {
@@ -77,17 +80,14 @@ mt_mat mt_mat_cache::get(const vector<i32>& sizes, mt_Depth_Channel depth_channe
 
 mt_mat mt_mat_cache::get(i32 dim, const i32* sizes, mt_Depth_Channel depth_channel) {
 	thread_data* data = NULL;
-	
-	{
-		sys_thread_lock lock(m_mutex);
+	sys_thread_lock lock(m_mutex);
 
-		++m_get_number;
+	++m_get_number;
 
-		map<u64, thread_data>::iterator td = m_thread_data.find(sys_os::current_thread_id());
+	map<u64, thread_data>::iterator td = m_thread_data.find(sys_os::current_thread_id());
 
-		if (td != m_thread_data.end()) {
-			data = &td->second;
-		}
+	if (td != m_thread_data.end()) {
+		data = &td->second;
 	}
 
 	if (data != NULL) {
-- 
2.43.0


From 630d425ca4f739327f8e7cd4911faa4776cc85f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 09/32] fix: component stacks hold the sentinel besides all 256
 gray levels

---
 basicimg/include/img_fast_mser_v1.h | 2 +-
 basicimg/include/img_fast_mser_v2.h | 2 +-
 basicimg/include/img_ms_mser.h      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicimg/include/img_fast_mser_v1.h b/basicimg/include/img_fast_mser_v1.h
index 213498e..e4f012f 100644
--- a/basicimg/include/img_fast_mser_v1.h
+++ b/basicimg/include/img_fast_mser_v1.h
@@ -107,7 +107,7 @@ namespace basicimg {
 			mt_block_memory<mser_region> m_mser_regions;
 
 			i16** m_heap;
-			connected_comp m_comp[256];
+			connected_comp m_comp[257];
 			i16** m_heap_start[257];
 
 			mser_region** m_boundary_regions[4];	//left, right, top, bottom
diff --git a/basicimg/include/img_fast_mser_v2.h b/basicimg/include/img_fast_mser_v2.h
index 1798e77..d854669 100644
--- a/basicimg/include/img_fast_mser_v2.h
+++ b/basicimg/include/img_fast_mser_v2.h
@@ -80,7 +80,7 @@ namespace basicimg {
 			i32 m_er_number;
 			mt_block_memory<mser_region> m_mser_regions;
 			u32** m_heap;
-			connected_comp m_comp[256];
+			connected_comp m_comp[257];
 			u32** m_heap_start[257];
 
 			i32 m_dir[9];
diff --git a/basicimg/include/img_ms_mser.h b/basicimg/include/img_ms_mser.h
index 93ed626..86c7526 100644
--- a/basicimg/include/img_ms_mser.h
+++ b/basicimg/include/img_ms_mser.h
@@ -100,7 +100,7 @@ namespace basicimg {
 		u32 m_heap_size;
 		u32** m_heap_start[257];
 
-		connected_comp m_comp[256];
+		connected_comp m_comp[257];
 
 		mser_region** m_gray_order_regions;
 		u32 m_gray_order_regions_memory_size;
-- 
2.43.0


From 30e82937e4574ba90c35a909ae700566238b78d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 10/32] fix: ms_mser visits all eight neighbours with
 8-connectivity

---
 basicimg/src/img_ms_mser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_ms_mser.cpp b/basicimg/src/img_ms_mser.cpp
index 9d46482..9807e6d 100644
--- a/basicimg/src/img_ms_mser.cpp
+++ b/basicimg/src/img_ms_mser.cpp
@@ -251,7 +251,7 @@ void img_ms_mser::build_tree(const mt_mat& img, const img_mask_info<u8>& mask, u
 		nbr_index = *points >> m_dir_shift;
 
 		// take tour of all the 4 or 8 directions
-		while (nbr_index <= 4) {
+		while (nbr_index < (i32)(m_boundary_pixel >> m_dir_shift)) {
 			// get the neighbor
 			nbr_points = points + m_dir[nbr_index];
 
-- 
2.43.0


From d2bced7942b296d3a7818ac979984369b1e1c058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 11/32] fix: ms_mser counts inverted gray levels when only
 maxima are extracted

---
 basicimg/src/img_ms_mser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_ms_mser.cpp b/basicimg/src/img_ms_mser.cpp
index 9807e6d..d3910f4 100644
--- a/basicimg/src/img_ms_mser.cpp
+++ b/basicimg/src/img_ms_mser.cpp
@@ -174,7 +174,7 @@ void img_ms_mser::pre_process_image(const mt_mat& img, const img_mask_info<u8>&
 				*points++ = m_boundary_pixel;
 
 				for (col = 0; col < width; ++col) {
-					m_level_size[*img_data]++;
+					m_level_size[*img_data ^ gray_mask]++;
 					*extended_image_data++ = *img_data++;
 					*points++ = 0;
 				}
-- 
2.43.0


From 5be1ebf74f2e76265b7e4b1e3c1125b5c5c5c9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 12/32] fix: opencv3_mser counts inverted gray levels when only
 maxima are extracted

---
 basicimg/src/img_opencv3_mser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_opencv3_mser.cpp b/basicimg/src/img_opencv3_mser.cpp
index d82d04d..8e6017b 100644
--- a/basicimg/src/img_opencv3_mser.cpp
+++ b/basicimg/src/img_opencv3_mser.cpp
@@ -387,7 +387,7 @@ void img_opencv3_mser::preprocess( const mt_mat& img, int* level_size, u8 mask)
 			pptr[0] = pptr[cols-1] = borderpix;
 			for( j = 1; j < cols-1; j++ )
 			{
-				int val = imgptr[j];
+				int val = imgptr[j] ^ mask;
 				level_size[val]++;
 				pptr[j].val = 0;
 			}
-- 
2.43.0


From 61faffaf22b247bb0c248bbc94762f407da7c453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 13/32] fix: ms_mser reads the rows of an image that is not
 continuous

---
 basicimg/src/img_ms_mser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/basicimg/src/img_ms_mser.cpp b/basicimg/src/img_ms_mser.cpp
index d3910f4..45dad81 100644
--- a/basicimg/src/img_ms_mser.cpp
+++ b/basicimg/src/img_ms_mser.cpp
@@ -159,6 +159,7 @@ void img_ms_mser::pre_process_image(const mt_mat& img, const img_mask_info<u8>&
 	if (gray_mask == 0 || !m_from_min_max[0]) {
 		u8* extended_image_data = m_extended_image;
 		const u8* img_data = img.ptr<u8>(0, 0, 0);
+		u32 img_cpt = img.step()[0] - width;
 		memset(m_level_size, 0, sizeof(u32) * 257);
 
 		//set the first row to be -1
@@ -180,6 +181,7 @@ void img_ms_mser::pre_process_image(const mt_mat& img, const img_mask_info<u8>&
 				}
 
 				*points++ = m_boundary_pixel;
+				img_data += img_cpt;
 				extended_image_data += 2;
 			}			
 		}
-- 
2.43.0


From 5dda07910d63f7d2a0eb29742a281e3e8ee3f97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 14/32] fix: opencv_mser inverts the image for maxima, not for
 minima

---
 basicimg/src/img_opencv_mser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_opencv_mser.cpp b/basicimg/src/img_opencv_mser.cpp
index 230f582..5c67687 100644
--- a/basicimg/src/img_opencv_mser.cpp
+++ b/basicimg/src/img_opencv_mser.cpp
@@ -197,7 +197,7 @@ void img_opencv_mser::preProcessImage(const mt_mat& src, u8 gray_mask) {
 	imgptr += cpt_1;
 	u8* srcptr = (u8*)src.data();
 	
-	if (gray_mask) {
+	if (gray_mask == 0) {
 		for (int row = 0; row < src.size()[0]; ++row) {
 			*imgptr++ = -1;
 			for (int col = 0; col < src.size()[1]; ++col) {
-- 
2.43.0


From d3afec10671f187e5138b1a6ce5058ba61b6e801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:25 +0000
Subject: [PATCH 15/32] fix: linked_linear counts and stores value-masked
 pixels as masked

---
 basicimg/src/img_linked_linear_mser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_linked_linear_mser.cpp b/basicimg/src/img_linked_linear_mser.cpp
index a6abff5..32d204b 100644
--- a/basicimg/src/img_linked_linear_mser.cpp
+++ b/basicimg/src/img_linked_linear_mser.cpp
@@ -391,8 +391,8 @@ void img_linked_linear_mser::pre_process_image(const mt_mat& src, u8 gray_mask,
 						srcValue = *srcptr;
 					}
 
-					level_size[*srcptr]++;
-					*imgptr = *srcptr;
+					level_size[srcValue]++;
+					*imgptr = srcValue;
 
 					imgptr++;
 					srcptr++;
-- 
2.43.0


From aed4570a45055436cef21ce388b44e6c3f9fa951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:53 +0000
Subject: [PATCH 16/32] fix: opencv3 reports the gray level of its regions

---
 basicimg/include/img_opencv3_mser.h | 1 +
 basicimg/src/img_opencv3_mser.cpp   | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/basicimg/include/img_opencv3_mser.h b/basicimg/include/img_opencv3_mser.h
index 886fdd4..e305ee2 100644
--- a/basicimg/include/img_opencv3_mser.h
+++ b/basicimg/include/img_opencv3_mser.h
@@ -51,6 +51,7 @@ namespace basicimg  {
 			u32* m_total_pixel_number;
 			Pixel* pix0;
 			int step;
+			u8 gray_mask;
 		};
 
 		struct CompHistory
diff --git a/basicimg/src/img_opencv3_mser.cpp b/basicimg/src/img_opencv3_mser.cpp
index 8e6017b..81a0d8e 100644
--- a/basicimg/src/img_opencv3_mser.cpp
+++ b/basicimg/src/img_opencv3_mser.cpp
@@ -85,6 +85,7 @@ void img_opencv3_mser::CompHistory::checkAndCapture(WParams& wp )
 	img_mser& region = wp.msers->back();
 	*wp.m_total_pixel_number += (u32)size;
 	region.m_size = size;
+	region.m_gray_level = (u8)(val ^ wp.gray_mask);
 
 	region.m_points = new mt_point[region.m_size];
 	region.m_memory_type = img_mser::Memory_Type_Self;
@@ -262,6 +263,7 @@ void img_opencv3_mser::extract_pixel(img_multi_msers& msers, u8 gray_mask) {
 	wp.msers = &msers.m_msers[(gray_mask == 0) ? 0 : 1];
 	wp.pix0 = ptr0;
 	wp.step = step;
+	wp.gray_mask = gray_mask;
 	m_channel_total_pixel_number = 0;
 	wp.m_total_pixel_number = &m_channel_total_pixel_number;
 
-- 
2.43.0


From b29a3e76d1b1bb371eb9ec779d6a2cdcba6bb19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:19 +0000
Subject: [PATCH 17/32] fix: mt_mat: size arrays and temporary buffers are
 released once, after their last use, the way they were allocated

---
 basicmath/src/mt_convolution.cpp        |  3 ++-
 basicmath/src/mt_mat.cpp                | 26 +++++++++++++++----------
 basicmath/src/mt_mat_helper.cpp         |  2 ++
 basicmath/src/mt_mat_math_operation.cpp |  4 ++++
 basicmath/src/mt_random.cpp             |  2 ++
 5 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/basicmath/src/mt_convolution.cpp b/basicmath/src/mt_convolution.cpp
index ce3e9eb..d4bdb5e 100644
--- a/basicmath/src/mt_convolution.cpp
+++ b/basicmath/src/mt_convolution.cpp
@@ -279,7 +279,6 @@ void mt_mat::conv(mt_mat& res, const mt_mat& kernel, mt_Conv_Boundary_Type bound
 	basicmath_mat_release(full_sizes);
 	basicmath_mat_release(sizes);
 	basicmath_mat_release(starts);
-	basicmath_mat_release(temp_strides);
 	basicmath_mat_release(res_steps);
 
 	if (m_auto_derivative != NULL && m_auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
@@ -288,6 +287,8 @@ void mt_mat::conv(mt_mat& res, const mt_mat& kernel, mt_Conv_Boundary_Type bound
 
 		m_auto_derivative->cnov(res, *this, kernel, boundary_type, temp_strides);
 	}
+
+	basicmath_mat_release(temp_strides);
 }
 
 mt_mat mt_mat::conv(const mt_mat& kernel, mt_Conv_Boundary_Type boundary_type /* = mt_Conv_Boundary_Type_Valid */, mt_Conv_Kernel_Align_Type align_type, const int* conv_strides /* = NULL */) const {	
diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 7c6de64..e54ba67 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1250,7 +1250,7 @@ mt_mat::~mt_mat() {
 	try_deallocate();
 
 	if (m_dynamic_size_steps != 0) {
-		free(m_dynamic_size_steps);
+		delete[] m_dynamic_size_steps;
 	}
 }
 
@@ -1296,11 +1296,11 @@ void mt_mat::create(i32 dims, const i32* sizes, mt_Depth_Channel depth_channel)
 	if (dims > 4 && m_dynamic_size_step_size < dims) {
 
 		if (m_dynamic_size_steps != NULL) {
-			free(m_dynamic_size_steps);
+			delete[] m_dynamic_size_steps;
 		}
 
 		m_dynamic_size_step_size = dims;
-		m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (m_dynamic_size_step_size * 2));
+		m_dynamic_size_steps = new i32[m_dynamic_size_step_size * 2];
 	}
 
 	m_dims = dims;
@@ -2072,10 +2072,11 @@ void mt_mat::operator =(const mt_mat& other) {
 
 	if (other.m_dims > 4 && m_dynamic_size_step_size < other.m_dims) {
 		if (m_dynamic_size_steps != NULL) {
-			free(m_dynamic_size_steps);
+			delete[] m_dynamic_size_steps;
 		}
 
 		m_dynamic_size_step_size = other.m_dims;
+		m_dynamic_size_steps = new i32[m_dynamic_size_step_size * 2];
 	}
 
 	m_dims = other.m_dims;
@@ -2236,9 +2237,9 @@ mt_mat mt_mat::reshape(int dims, const int* sizes, i32 new_channel) const {
 	mt_mat res;
 	res.m_dims = dims;
 
-	if (res.m_dims > 4 && m_dynamic_size_step_size < res.m_dims) {
+	if (res.m_dims > 4) {
 		res.m_dynamic_size_step_size = res.m_dims;
-		res.m_dynamic_size_steps = new int[m_dynamic_size_step_size * 2];
+		res.m_dynamic_size_steps = new int[res.m_dynamic_size_step_size * 2];
 	}
 
 	for (int i = 0; i < res.m_dims; ++i) {
@@ -2302,7 +2303,7 @@ mt_mat mt_mat::split_dim(int dim, int splited_dims, int* splited_sizes) const {
 
 	if (res.m_dims > mt_Mat_Normal_Support_Dim) {
 		res.m_dynamic_size_step_size = res.m_dims;
-		res.m_dynamic_size_steps = new int[m_dynamic_size_step_size * 2];
+		res.m_dynamic_size_steps = new int[res.m_dynamic_size_step_size * 2];
 	}
 
 	for (int i = 0; i < splited_dims; ++i) {
@@ -2406,9 +2407,11 @@ mt_mat mt_mat::repeat(i32 nsize, i32 dim, i32 nchannels) const {
 
 	nsizes[dim] = nsize;
 	
-	return repeat(this->dim(), nsizes, nchannels);
+	mt_mat res = repeat(this->dim(), nsizes, nchannels);
 
 	basicmath_mat_release(nsizes);
+
+	return res;
 }
 
 mt_mat mt_mat::repeat(const vector<i32>& nsizes, i32 nchannels) const {
@@ -2432,6 +2435,7 @@ mt_mat mt_mat::repeat(i32 dims, const i32* nsizes, i32 nchannels) const {
 	}
 
 	if (!size_changed && nchannels == 1) {
+		basicmath_mat_release(dst_sizes);
 		return clone();
 	}
 
@@ -2574,7 +2578,7 @@ mt_mat mt_mat::channel_as_last_dim() const {
 
 	if (res.m_dims > mt_Mat_Normal_Support_Dim) {
 		res.m_dynamic_size_step_size = res.m_dims;
-		res.m_dynamic_size_steps = new int[m_dynamic_size_step_size * 2];
+		res.m_dynamic_size_steps = new int[res.m_dynamic_size_step_size * 2];
 	}
 
 	for (int i = 0; i < m_dims; ++i) {
@@ -2777,8 +2781,10 @@ mt_mat mt_mat::sub(const mt_range& range, int dim) const {
 		}
 	}
 
+	mt_mat sub_mat = sub(m_dims, ranges);
 	basicmath_mat_release(ranges);
-	return sub(m_dims, ranges);
+
+	return sub_mat;
 
 	/*basiclog_assert("mt_mat", range.is_valid() && (range.m_end <= this->size()[dim]));
 
diff --git a/basicmath/src/mt_mat_helper.cpp b/basicmath/src/mt_mat_helper.cpp
index 99c5ffc..7e2d080 100644
--- a/basicmath/src/mt_mat_helper.cpp
+++ b/basicmath/src/mt_mat_helper.cpp
@@ -25,6 +25,8 @@ mt_mat mt_mat_helper::merge_align_dim(const vector<mt_mat>& elements, i32 dim, b
 
 	mt_mat res(elements[0].dim(), res_size, elements[0].depth_channel());
 
+	basicmath_mat_release(res_size);
+
 	i32 dim_start_index = 0;
 
 	for (i32 i = 0; i < (i32)elements.size(); ++i) {
diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 5a5b303..8397ab5 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -1751,6 +1751,8 @@ namespace basicmath {
 					}
 				}
 			}
+
+			basicmath_mat_release(bias_indexes);
 		}
 
 		static void operation_bias(mt_mat& res, const mt_mat& src, const mt_mat& bias, mt_mat_helper::Math_Op_Code code) {
@@ -2783,6 +2785,8 @@ mt_mat mt_mat::expand(i32 size, const i32* side_sizes_1, const i32* side_sizes_2
 		m_auto_derivative->expand(res, *this, size, ranges);
 	}
 
+	basicmath_mat_release(ranges);
+
 	return res;
 }
 
diff --git a/basicmath/src/mt_random.cpp b/basicmath/src/mt_random.cpp
index 709fc1e..3abf6dd 100644
--- a/basicmath/src/mt_random.cpp
+++ b/basicmath/src/mt_random.cpp
@@ -160,6 +160,8 @@ mt_mat mt_random::bernoulli_iid(i32 dims, const i32* sizes, mt_Depth_Channel dep
 		mat.set(random_values, dims, &iter.position()[0]);
 	}
 
+	basicmath_mat_release(random_values);
+
 	return mat;
 }
 
-- 
2.43.0


From 2a70cf345bca14f3990861b7522d2237f4d8bff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:19 +0000
Subject: [PATCH 18/32] fix: mt_auto_derivative: constant nodes are released
 with the other nodes

---
 basicmath/src/mt_auto_derivative.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/basicmath/src/mt_auto_derivative.cpp b/basicmath/src/mt_auto_derivative.cpp
index f73a278..11bab91 100644
--- a/basicmath/src/mt_auto_derivative.cpp
+++ b/basicmath/src/mt_auto_derivative.cpp
@@ -335,6 +335,8 @@ mt_ad_tree_node* mt_auto_derivative::get_node(const mt_mat& mat) {
 
 mt_ad_tree_node* mt_auto_derivative::get_node(const vector<double>& const_value) {
 	mt_ad_tree_node* node = new mt_ad_const_leaf_tree_node(const_value);
+	m_nodes.push_back(node);
+
 	return node;
 }
 
-- 
2.43.0


From 0b25b614281d6ec0723befc5b78faa38befc71db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:19 +0000
Subject: [PATCH 19/32] fix: sys_strhelper: levenshtein_distance releases its
 buffers

---
 basicsys/src/sys_strhelper.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index e61b0c1..30dc952 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -112,8 +112,10 @@ int sys_strhelper::levenshtein_distance(const string& word1, const string& word2
 	dataType* q = buffer2;	\
 
 #define STRING_DEFINE_BUFFER_ALLOC_DYMANAIC(dataType, bufferSize)	\
-	dataType* p = new dataType[bufferSize];	\
-	dataType* q = new dataType[bufferSize];	\
+	vector<dataType> buffer1(bufferSize);	\
+	vector<dataType> buffer2(bufferSize);	\
+	dataType* p = &buffer1[0];	\
+	dataType* q = &buffer2[0];	\
 
 #define STRING_DEFINE_CALCULATE_DIST(dataType)	\
 	p[0] = 0;	\
-- 
2.43.0


From d0eb18e5ed31b754ed6f80da61b3bc474746f5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:19 +0000
Subject: [PATCH 20/32] fix: sys_buffer: the byte file reader closes its file,
 read_str releases its buffer, readers and writers can't be copied

---
 basicsys/include/sys_buffer.h | 12 ++++++++++++
 basicsys/src/sys_buffer.cpp   | 10 ++++++++++
 2 files changed, 22 insertions(+)

diff --git a/basicsys/include/sys_buffer.h b/basicsys/include/sys_buffer.h
index f56ce7b..06c283a 100644
--- a/basicsys/include/sys_buffer.h
+++ b/basicsys/include/sys_buffer.h
@@ -59,6 +59,11 @@ namespace basicsys {
 	protected:
 
 		mutable sys_IO_Status m_io_status;
+
+	private:
+		//the writers can own a file, so they can't be copied
+		sys_buffer_writer(const sys_buffer_writer& other);
+		void operator = (const sys_buffer_writer& other);
 	};
 
 	class sys_byte_buffer_reader;
@@ -104,6 +109,11 @@ namespace basicsys {
 	protected:
 
 		mutable sys_IO_Status m_io_status;
+
+	private:
+		//the readers can own a file, so they can't be copied
+		sys_buffer_reader(const sys_buffer_reader& other);
+		void operator = (const sys_buffer_reader& other);
 	}; 
 
 	class sys_byte_buffer_writer : public sys_buffer_writer {
@@ -279,6 +289,8 @@ namespace basicsys {
 
 		virtual ~sys_byte_file_buffer_reader();
 
+		virtual void close();
+
 		virtual b8 is_closed() const {
 			return m_file == NULL;
 		}
diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index c5aa3ce..a5ddc8c 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -375,6 +375,14 @@ sys_byte_file_buffer_reader::~sys_byte_file_buffer_reader() {
 	close();
 }
 
+void sys_byte_file_buffer_reader::close() {
+	if (m_file != NULL && m_need_close_file) {
+		fclose(m_file);
+	}
+
+	m_file = NULL;
+}
+
 //c16 sys_byte_file_buffer_reader::read_c16() const {
 //	c16 value;
 //	u8* ptr_value = (u8*)&value;
@@ -871,6 +879,8 @@ void sys_string_file_buffer_reader::read_str(string& str, i32 size) const {
 
 	temp[character_count] = 0;
 	str = temp;
+
+	delete[] temp;
 }
 
 i64 sys_string_file_buffer_reader::position() const {
-- 
2.43.0


From 5c4f26ac1cde933febe20ec1f9fd13e83207ec8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:19 +0000
Subject: [PATCH 21/32] fix: img_connected_component: release points with
 delete[], copy deeply, release unused caches

---
 basicimg/include/img_connected_component.h | 22 +++++++++++++++++-----
 basicimg/src/img_connected_component.cpp   | 10 ++++++++++
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 58d35fb..a14216e 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -93,7 +93,7 @@
 	}	\
 	currentRegion->m_y = preInfo.m_cache_point_index;	\
 	single_extract_stop(cc, preInfo);\
-	delete preInfo.m_cache_points;
+	delete[] preInfo.m_cache_points;
 
 namespace basicimg {
 	class img_connected_component {
@@ -101,6 +101,8 @@ namespace basicimg {
 
 		img_connected_component();
 
+		img_connected_component(const img_connected_component& other);
+
 		~img_connected_component();
 
 		void operator = (const img_connected_component& other);
@@ -130,6 +132,11 @@ namespace basicimg {
 
 		vector<img_connected_component> m_ccs;
 		mt_point* m_cache_points;
+
+	private:
+		//the components share m_cache_points, so it can't be copied
+		img_multi_connected_components(const img_multi_connected_components& other);
+		void operator = (const img_multi_connected_components& other);
 	};
 
 	enum img_Mask_Type {
@@ -264,7 +271,7 @@ namespace basicimg {
 			currentRegion = &preInfo.m_regions.back();
 			image_data->m_visit_flag = 1;
 			currentRegion->m_x = preInfo.m_cache_point_index;
-			*preInfo.m_cache_points++ = startPoint;
+			preInfo.m_cache_points[preInfo.m_cache_point_index++] = startPoint;
 
 			preInfo.m_stack_helper[++preInfo.m_stack_top_index] = image_data;
 
@@ -286,14 +293,14 @@ namespace basicimg {
 						offset = (i32)(other_image_data - start_image_data);
 						offset_y = offset / preInfo.m_temp_image.size()[1];	
 						offset_x = offset - offset_y * preInfo.m_temp_image.size()[1];	
-						*preInfo.m_cache_points++ = mt_point(offset_x + preInfo.m_activate_rect.m_left, offset_y + preInfo.m_activate_rect.m_top);	
+						preInfo.m_cache_points[preInfo.m_cache_point_index++] = mt_point(offset_x + preInfo.m_activate_rect.m_left, offset_y + preInfo.m_activate_rect.m_top);	
 					}
 				}
 			}
 
 			currentRegion->m_y = preInfo.m_cache_point_index;
 			single_extract_stop(cc, preInfo);
-			delete preInfo.m_cache_points;
+			delete[] preInfo.m_cache_points;
 		}
 
 		virtual void ture_normal_extract(img_multi_connected_components& ccs, const mt_mat& image, const img_mask_info<T>& maskInfo = img_mask_info<T>(), img_Connected_Type connect_type = img_Connected_Type_8_Neibour) {
@@ -602,7 +609,12 @@ namespace basicimg {
 				preInfo.m_regions.pop_back();
 			}
 
-			if (!preInfo.m_regions.empty()) {
+			ccs.m_ccs.clear();
+			basicsys_delete_array(ccs.m_cache_points);
+
+			if (preInfo.m_regions.empty()) {
+				delete[] preInfo.m_cache_points;
+			} else {
 				ccs.m_cache_points = preInfo.m_cache_points;
 				ccs.m_ccs.resize(preInfo.m_regions.size());
 
diff --git a/basicimg/src/img_connected_component.cpp b/basicimg/src/img_connected_component.cpp
index 0eb2242..af0dd99 100644
--- a/basicimg/src/img_connected_component.cpp
+++ b/basicimg/src/img_connected_component.cpp
@@ -33,6 +33,13 @@ img_connected_component::img_connected_component()
 
 }
 
+img_connected_component::img_connected_component(const img_connected_component& other)
+	: m_points(NULL)
+	, m_size(0)
+	, m_share_memory(sys_false) {
+	*this = other;
+}
+
 img_connected_component::~img_connected_component() {
 	release();
 }
@@ -44,6 +51,7 @@ void img_connected_component::operator = (const img_connected_component& other)
 
 	release();
 	m_share_memory = other.m_share_memory;
+	m_rect = other.m_rect;
 
 	if (other.m_share_memory) {
 		m_points = other.m_points;
@@ -63,6 +71,8 @@ void img_connected_component::release() {
 	if (!m_share_memory && m_points != NULL) {
 		delete[] m_points;
 	}
+
+	m_points = NULL;
 }
 
 void img_connected_component::init(i32 size) {
-- 
2.43.0


From b1ec2f96c091d86decd49e207e791aca49d46bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:19 +0000
Subject: [PATCH 22/32] fix: img_mser, img_multi_msers: copies own their memory
 and refer to it

---
 basicimg/src/img_mser_base.cpp | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/basicimg/src/img_mser_base.cpp b/basicimg/src/img_mser_base.cpp
index f9441d2..19132b9 100644
--- a/basicimg/src/img_mser_base.cpp
+++ b/basicimg/src/img_mser_base.cpp
@@ -19,19 +19,26 @@ img_mser::~img_mser() {
 }
 
 img_mser::img_mser(const img_mser& other) {
+	m_memory_type = Memory_Type_Self;
 	m_points = NULL;
 	*this = other;
 }
 
 void img_mser::operator=(const img_mser& other) {
+	if (this == &other) {
+		return;
+	}
+
+	if (m_memory_type == Memory_Type_Self) {
+		basicsys_delete_array(m_points);
+	}
+
 	m_gray_level = other.m_gray_level;
 	m_memory_type = other.m_memory_type;
 	m_size = other.m_size;
 	m_rect = other.m_rect;
 
 	if (m_memory_type == Memory_Type_Self) {
-		basicsys_delete_array(m_points);
-
 		if (m_size > 0) {
 			m_points = new mt_point[m_size];
 			memcpy(m_points, other.m_points, sizeof(mt_point) * m_size);
@@ -51,24 +58,39 @@ img_multi_msers::img_multi_msers(const img_multi_msers& other) {
 }
 
 void img_multi_msers::operator=(const img_multi_msers& other) {
+	if (this == &other) {
+		return;
+	}
+
 	m_msers[0] = other.m_msers[0];
 	m_msers[1] = other.m_msers[1];
 
 	m_memory_size[0] = other.m_memory_size[0];
 	m_memory_size[1] = other.m_memory_size[1];
 
-	basicsys_delete_array(m_memory[0]);
-	basicsys_delete_array(m_memory[1]);
+	basicsys_free(m_memory[0]);
+	basicsys_free(m_memory[1]);
 
 	if (m_memory_size[0] > 0) {
-		m_memory[0] = new mt_point[m_memory_size[0]];
+		m_memory[0] = (mt_point*)malloc(sizeof(mt_point) * m_memory_size[0]);
 		memcpy(m_memory[0], other.m_memory[0], sizeof(mt_point) * m_memory_size[0]);
 	}
 
 	if (m_memory_size[1] > 0) {
-		m_memory[1] = new mt_point[m_memory_size[1]];
+		m_memory[1] = (mt_point*)malloc(sizeof(mt_point) * m_memory_size[1]);
 		memcpy(m_memory[1], other.m_memory[1], sizeof(mt_point) * m_memory_size[1]);
 	}
+
+	//the regions that share the memory of other have to share the copied memory
+	for (i32 i = 0; i < 2; ++i) {
+		for (i32 j = 0; j < (i32)m_msers[i].size(); ++j) {
+			img_mser& mser = m_msers[i][j];
+
+			if (mser.m_memory_type != img_mser::Memory_Type_Self && mser.m_points != NULL && other.m_memory[i] != NULL) {
+				mser.m_points = m_memory[i] + (mser.m_points - other.m_memory[i]);
+			}
+		}
+	}
 }
 
 void img_mser_base::extract(img_multi_msers& res, const mt_mat& gray_src, const img_mask_info<u8>& mask /* = img_mask_info<u8>() */) {
-- 
2.43.0


From c0baa29f74439ce7590c17028270f4dc3957f134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:19 +0000
Subject: [PATCH 23/32] fix: mt_block_memory: copy the blocks instead of
 sharing them (changing the thread number released them twice)

---
 basicmath/include/mt_block_memory.h | 52 +++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/basicmath/include/mt_block_memory.h b/basicmath/include/mt_block_memory.h
index 470c3ac..6e03b87 100644
--- a/basicmath/include/mt_block_memory.h
+++ b/basicmath/include/mt_block_memory.h
@@ -79,10 +79,62 @@ namespace basicmath {
 			}
 		}
 
+		mt_block_memory(const mt_block_memory<T>& other) {
+			default_param();
+			*this = other;
+		}
+
 		~mt_block_memory() {
 			clear();
 		}
 
+		void operator = (const mt_block_memory<T>& other) {
+			if (this == &other) {
+				return;
+			}
+
+			clear();
+
+			m_block_size_2_base = other.m_block_size_2_base;
+			m_block_size = other.m_block_size;
+			m_block_size_mask = other.m_block_size_mask;
+			m_cur_block = other.m_cur_block;
+			m_use_new = other.m_use_new;
+			m_resue_max_number = other.m_resue_max_number;
+
+			m_memory_size = other.m_memory_size;
+			m_element_number = other.m_element_number;
+			m_reuse_number = other.m_reuse_number;
+
+			for (i32 i = 0; i < (i32)other.m_datas.size(); ++i) {
+				T* d = NULL;
+
+				if (m_use_new) {
+					d = new T[m_block_size];
+
+					for (i32 j = 0; j < m_block_size; ++j) {
+						d[j] = other.m_datas[i][j];
+					}
+				} else {
+					d = (T*)malloc(sizeof(T) * m_block_size);
+					memcpy((void*)d, (const void*)other.m_datas[i], sizeof(T) * m_block_size);
+				}
+
+				m_datas.push_back(d);
+			}
+
+			if (m_cur_block != -1) {
+				m_begin = m_datas.front();
+				m_cur_data = m_datas[m_cur_block] + (other.m_cur_data - other.m_datas[m_cur_block]);
+				m_cur_block_end = m_datas[m_cur_block] + m_block_size;
+			}
+
+			if (other.m_reuse_indexes != NULL) {
+				m_reuse_indexes = (i64*)malloc(sizeof(i64) * m_resue_max_number);
+				memcpy(m_reuse_indexes, other.m_reuse_indexes, sizeof(i64) * m_resue_max_number);
+			}
+		}
+
 		void clear() {
 			for (i32 i = 0; i < (i32)m_datas.size(); ++i) {
 				if (m_use_new) {
-- 
2.43.0


From 31bc2a12f0be2c5b54a2a0b0c1a343991a63bd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:19 +0000
Subject: [PATCH 24/32] fix: fast mser v1: release merged points and ordered
 indexes

---
 basicimg/include/img_fast_mser_v1.h |  2 ++
 basicimg/src/img_fast_mser_v1.cpp   | 16 ++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/basicimg/include/img_fast_mser_v1.h b/basicimg/include/img_fast_mser_v1.h
index e4f012f..d9cdeb9 100644
--- a/basicimg/include/img_fast_mser_v1.h
+++ b/basicimg/include/img_fast_mser_v1.h
@@ -152,6 +152,8 @@ namespace basicimg {
 
 		vector<i32*> m_orderd_indexes;
 
+		void release_ordered_indexes();
+
 		void allocate_memory(const mt_mat& img, const img_mask_info<u8>& mask);
 		void allocate_memory_parallel_1(const mt_mat& img, const img_mask_info<u8>& mask);
 		void allocate_memory_parallel_2(const mt_mat& img, const img_mask_info<u8>& mask);
diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index 03dda39..3c236d5 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -57,6 +57,16 @@ img_fast_mser_v1::~img_fast_mser_v1() {
 	basicsys_free(m_linked_points);
 	basicsys_free(m_masked_image);
 	basicsys_free(m_boundary_regions);
+	basicsys_free(m_merged_points);
+	release_ordered_indexes();
+}
+
+void img_fast_mser_v1::release_ordered_indexes() {
+	for (i32 i = 0; i < (i32)m_orderd_indexes.size(); ++i) {
+		basicsys_free(m_orderd_indexes[i]);
+	}
+
+	m_orderd_indexes.clear();
 }
 
 void img_fast_mser_v1::clear_memory_cache() {
@@ -65,6 +75,7 @@ void img_fast_mser_v1::clear_memory_cache() {
 	basicsys_free(m_masked_image);
 	basicsys_free(m_boundary_regions);
 	basicsys_free(m_merged_points);
+	release_ordered_indexes();
 
 	m_heap_size = 0;
 	m_masked_image_size = 0;
@@ -190,6 +201,7 @@ void img_fast_mser_v1::allocate_memory_parallel_2(const mt_mat& img, const img_m
 	u32 horizontal_index[2] = {0, left_width};
 	u32 widths[2] = {left_width, right_width};
 
+	release_ordered_indexes();
 	m_orderd_indexes.resize(1);
 	m_orderd_indexes[0] = (i32*)malloc(sizeof(i32) * img.size()[0]);
 
@@ -313,6 +325,7 @@ void img_fast_mser_v1::allocate_memory_parallel_4(const mt_mat& img, const img_m
 	u32 widths[2] = {left_width, right_width};
 	u32 heights[2] = {top_height, bottom_height};
 
+	release_ordered_indexes();
 	m_orderd_indexes.resize(2);
 	m_orderd_indexes[0] = (i32*)malloc(sizeof(i32) * img.size()[0]);
 	m_orderd_indexes[1] = (i32*)malloc(sizeof(i32) * img.size()[1]);
@@ -455,6 +468,7 @@ void img_fast_mser_v1::allocate_memory_parallel_8(const mt_mat& img, const img_m
 	u32 widths[4] = {p_width, p_width, p_width, (u32)img.size()[1] - 3 * p_width};
 	u32 heights[2] = {p_height, (u32)img.size()[0] - p_height};
 
+	release_ordered_indexes();
 	m_orderd_indexes.resize(2);
 	m_orderd_indexes[0] = (i32*)malloc(sizeof(i32) * img.size()[0]);
 	m_orderd_indexes[1] = (i32*)malloc(sizeof(i32) * img.size()[1]);
@@ -616,6 +630,7 @@ void img_fast_mser_v1::allocate_memory_parallel_16(const mt_mat& img, const img_
 	u32 widths[4] = {p_width, p_width, p_width, (u32)img.size()[1] - 3 * p_width};
 	u32 heights[4] = {p_height, p_height, p_height, (u32)img.size()[0] - 3 * p_height};
 
+	release_ordered_indexes();
 	m_orderd_indexes.resize(2);
 	m_orderd_indexes[0] = (i32*)malloc(sizeof(i32) * img.size()[0]);
 	m_orderd_indexes[1] = (i32*)malloc(sizeof(i32) * img.size()[1]);
@@ -780,6 +795,7 @@ void img_fast_mser_v1::allocate_memory_parallel_32(const mt_mat& img, const img_
 	u32 widths[8] = {p_width, p_width, p_width, p_width, p_width, p_width, p_width, (u32)img.size()[1] - 7 * p_width};
 	u32 heights[4] = {p_height, p_height, p_height, (u32)img.size()[0] - 3 * p_height};
 
+	release_ordered_indexes();
 	m_orderd_indexes.resize(2);
 	m_orderd_indexes[0] = (i32*)malloc(sizeof(i32) * img.size()[0]);
 	m_orderd_indexes[1] = (i32*)malloc(sizeof(i32) * img.size()[1]);
-- 
2.43.0


From eff9b99d3b9082df75d09daff9c91760f9af9649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:19 +0000
Subject: [PATCH 25/32] fix: fast mser v2: release the temporary buffers of the
 extraction

---
 basicimg/src/img_fast_mser_v2.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index c59497f..87d5492 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -1380,7 +1380,7 @@ void img_fast_mser_v2::extract_pixel_serial(img_multi_msers& msers, u8 gray_mask
 			} else {
 				cur_mser.m_memory_type = img_mser::Memory_Type_Share;
 				cur_mser.m_points = memory_offset;
-				memory_offset += cur_mser.m_size;
+				memory_offset += cur_region->m_size;
 			}
 
 			cur_mser.m_size = cur_region->m_size;
@@ -1634,6 +1634,8 @@ void img_fast_mser_v2::extract_pixel_serial(img_multi_msers& msers, u8 gray_mask
 			}
 		}
 	}
+
+	free(region_heap);
 }
 
 void img_fast_mser_v2::extract_pixel_parallel(img_multi_msers& msers, u8 gray_mask) {
@@ -2054,6 +2056,12 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 		mser_block_info_pointer[2] += 1;
 		mser_block_info_pointer[3] += 1;
 	}
+
+	if (free_memory_size < total_block_mser_info_size) {
+		free(mser_block_indexes);
+	}
+
+	free(region_heap);
 }
 
 void img_fast_mser_v2::calculate_variation(mser_region* region) {
-- 
2.43.0


From 61cb6c5849dcda9d8960b88c7f59eb6c9525d82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:19 +0000
Subject: [PATCH 26/32] fix: vlfeat mser: release the filter, keep its buffers
 for the next image

---
 basicimg/include/img_vlfeat_mser.h |  2 ++
 basicimg/src/img_vlfeat_mser.cpp   | 20 +++++++++++++-------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/basicimg/include/img_vlfeat_mser.h b/basicimg/include/img_vlfeat_mser.h
index 3b1e251..25c3a23 100644
--- a/basicimg/include/img_vlfeat_mser.h
+++ b/basicimg/include/img_vlfeat_mser.h
@@ -13,6 +13,8 @@ namespace basicimg {
 
 		}
 
+		~img_vlfeat_mser();
+
 	protected:
 
 		void allocate_memory(const mt_mat& src, const img_mask_info<u8>& mask);
diff --git a/basicimg/src/img_vlfeat_mser.cpp b/basicimg/src/img_vlfeat_mser.cpp
index 9f0ab70..a8d139b 100644
--- a/basicimg/src/img_vlfeat_mser.cpp
+++ b/basicimg/src/img_vlfeat_mser.cpp
@@ -1148,6 +1148,7 @@ void mser_new(void *&fv, int ndims, int const *dims) {
 	}
 
 	if (need_rellocate) {
+		mser_delete(f);
 		f = (MserFilt *) calloc(sizeof(MserFilt), 1);
 		fv = f;
 
@@ -1211,19 +1212,20 @@ void mser_new(void *&fv, int ndims, int const *dims) {
 
 			basiclog_info2(sys_strcombine()<<"linear memory cost "<< memory_cost / 1024.0 / 1024.0 <<"MB");
 		}
-	}
 
-	f->er = 0;
 
-	f->rer = 0;
+		f->er = 0;
+
+		f->rer = 0;
 
-	f->mer = 0;
+		f->mer = 0;
 
-	f->rmer = 0;
+		f->rmer = 0;
 
-	f->ell = 0;
+		f->ell = 0;
 
-	f->rell = 0;
+		f->rell = 0;
+	}
 }
 
 
@@ -2351,6 +2353,10 @@ void mser_recogniztion(MserFilt* f) {
     }
 }
 
+img_vlfeat_mser::~img_vlfeat_mser() {
+	mser_delete((MserFilt*)m_vl_feat_instance);
+}
+
 void img_vlfeat_mser::allocate_memory(const mt_mat& src, const img_mask_info<u8>& mask) {
 	if (!src.is_continuous()) {
 		m_src.copy_from(src);
-- 
2.43.0


From 61b95f9809bed71004ece756eaa0548a392e6bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:19 +0000
Subject: [PATCH 27/32] fix: objects that own memory or files can't be copied
 shallowly

---
 basicimg/include/img_canny.h                  | 5 +++++
 basicimg/include/img_mser_base.h              | 5 +++++
 basicimg/include/img_stroke_width_transform.h | 4 ++++
 basiclog/include/basiclog.h                   | 5 +++++
 basicmath/include/mt_auto_derivative.h        | 5 +++++
 5 files changed, 24 insertions(+)

diff --git a/basicimg/include/img_canny.h b/basicimg/include/img_canny.h
index 615d9fb..770fd71 100644
--- a/basicimg/include/img_canny.h
+++ b/basicimg/include/img_canny.h
@@ -124,6 +124,11 @@ namespace basicimg {
 		i32 m_buffer_size;
 
 		vector<u8*> m_stack;
+
+	private:
+		//it owns its buffer, so it can't be copied
+		img_canny(const img_canny& other);
+		void operator = (const img_canny& other);
 	};
 
 }
\ No newline at end of file
diff --git a/basicimg/include/img_mser_base.h b/basicimg/include/img_mser_base.h
index 904ccf8..9478bca 100644
--- a/basicimg/include/img_mser_base.h
+++ b/basicimg/include/img_mser_base.h
@@ -170,6 +170,11 @@ namespace basicimg {
 		u64 m_channel_total_running_memory;
 
 		i32 m_parallel_thread_number;	// only valid for parallel MSER algorithms
+
+	private:
+		//an extractor owns its memory cache, so it can't be copied
+		img_mser_base(const img_mser_base& other);
+		void operator = (const img_mser_base& other);
 	};
 
 	class img_mser_alg_factory {
diff --git a/basicimg/include/img_stroke_width_transform.h b/basicimg/include/img_stroke_width_transform.h
index e55cb01..2a4f39e 100644
--- a/basicimg/include/img_stroke_width_transform.h
+++ b/basicimg/include/img_stroke_width_transform.h
@@ -43,6 +43,10 @@ namespace basicimg {
 
 			vector<mt_point*> m_blocks;
 			i32 m_current_block_size;
+
+		private:
+			point_memory(const point_memory& other);
+			void operator = (const point_memory& other);
 		};
 
 		class swt_ray {
diff --git a/basiclog/include/basiclog.h b/basiclog/include/basiclog.h
index 0c42762..847704a 100644
--- a/basiclog/include/basiclog.h
+++ b/basiclog/include/basiclog.h
@@ -157,5 +157,10 @@ namespace basiclog {
 
 
 		std::list<std::string> m_list_files;
+
+	private:
+		//the logger owns its current file, so it can't be copied
+		log_file_logger(const log_file_logger& other);
+		void operator = (const log_file_logger& other);
 	};
 }
\ No newline at end of file
diff --git a/basicmath/include/mt_auto_derivative.h b/basicmath/include/mt_auto_derivative.h
index 3ef4027..6f3120d 100644
--- a/basicmath/include/mt_auto_derivative.h
+++ b/basicmath/include/mt_auto_derivative.h
@@ -135,5 +135,10 @@ namespace basicmath {
 
 		vector<mt_auto_derivative**> m_self_references;  
 		Stage m_stage;
+
+	private:
+		//it owns its nodes, so it can't be copied
+		mt_auto_derivative(const mt_auto_derivative& other);
+		void operator = (const mt_auto_derivative& other);
 	};
 }
\ No newline at end of file
-- 
2.43.0


From 10fdc578d85843a4379f0197fcb22253003c206a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:56 +0000
Subject: [PATCH 28/32] fix: objects that own a mutex can't be copied

---
 basiclog/include/basiclog.h      | 5 +++++
 basicmath/include/mt_mat.h       | 5 +++++
 basicmath/include/mt_mat_cache.h | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/basiclog/include/basiclog.h b/basiclog/include/basiclog.h
index 847704a..f3862b5 100644
--- a/basiclog/include/basiclog.h
+++ b/basiclog/include/basiclog.h
@@ -103,6 +103,11 @@ namespace basiclog {
 
 		std::vector<std::string> m_filters;
 		void* m_mutex;
+
+	private:
+		//it owns its mutex, so it can't be copied
+		log_logger(const log_logger& other);
+		void operator = (const log_logger& other);
 	};
 
 	class log_console_logger : public log_logger {
diff --git a/basicmath/include/mt_mat.h b/basicmath/include/mt_mat.h
index bd03ca4..d83fe74 100644
--- a/basicmath/include/mt_mat.h
+++ b/basicmath/include/mt_mat.h
@@ -657,6 +657,11 @@ class mt_mat {
 			i32 m_ref_number;
 			void* m_ref_mutex;	//!< Even the mt_mat is not thread safety, however, we must make sure the =, sub, channel, reshape etc. operations (change the reference number while resuse the memory)
 								//!< can work normally in multi-thread environments, due to these operations do not modify the data of mt_mat.
+
+		private:
+			//it owns its mutex, so it can't be copied
+			reference_info(const reference_info& other);
+			void operator = (const reference_info& other);
 		};
 
 		reference_info* m_reference;
diff --git a/basicmath/include/mt_mat_cache.h b/basicmath/include/mt_mat_cache.h
index 397e3a8..ef2a26e 100644
--- a/basicmath/include/mt_mat_cache.h
+++ b/basicmath/include/mt_mat_cache.h
@@ -44,6 +44,11 @@ namespace basicmath {
 		void* m_mutex;
 
 		friend class mt_auto_mat_cache;
+
+	private:
+		//it owns its mutex, so it can't be copied
+		mt_mat_cache(const mt_mat_cache& other);
+		void operator = (const mt_mat_cache& other);
 	};
 
 	class mt_auto_mat_cache {
-- 
2.43.0


From 22fda779eea1bf630e0c7bd26d574fd316cf5bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:38 +0000
Subject: [PATCH 29/32] fix: origin_mser reported the regions of an earlier
 image of another size again

---
 basicimg/src/img_origin_mser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_origin_mser.cpp b/basicimg/src/img_origin_mser.cpp
index 43e41da..7769045 100644
--- a/basicimg/src/img_origin_mser.cpp
+++ b/basicimg/src/img_origin_mser.cpp
@@ -595,10 +595,10 @@ void img_original_mser::allocate_memory(const mt_mat& image, const img_mask_info
 		m_stack_helper_size = area;
 		basicsys_delete_array(m_stack_helper);
 		m_stack_helper = new i16*[area];
-	} else {
-		resetPreInfo();
 	}
 
+	resetPreInfo();
+
 	m_stack_top_index = -1;
 
 	for (i32 i = 1; i < m_window_size; ++i) {
-- 
2.43.0


From ec420f04014e48e174fbb2a7554095543a92851b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:03 +0000
Subject: [PATCH 30/32] fix: mt_mat::set chose the source element type by its
 own depth instead of the other matrix's

---
 basicmath/src/mt_mat.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index e54ba67..58b2b8d 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1520,7 +1520,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 		}
 	} else {
 		if (depth() == mt_U8) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<u8, u8>(*this, other);
 				break;
@@ -1556,7 +1556,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_I8) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<i8, u8>(*this, other);
 				break;
@@ -1592,7 +1592,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_U16) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<u16, u8>(*this, other);
 				break;
@@ -1628,7 +1628,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_I16) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<i16, u8>(*this, other);
 				break;
@@ -1664,7 +1664,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_U32) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<u32, u8>(*this, other);
 				break;
@@ -1700,7 +1700,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_I32) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<i32, u8>(*this, other);
 				break;
@@ -1736,7 +1736,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_U64) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<u64, u8>(*this, other);
 				break;
@@ -1772,7 +1772,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_I64) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<i64, u8>(*this, other);
 				break;
@@ -1808,7 +1808,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_F32) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<f32, u8>(*this, other);
 				break;
@@ -1844,7 +1844,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_F64) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<f64, u8>(*this, other);
 				break;
-- 
2.43.0


From d8117e890977aca922d16d62568031f5e62b8eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:03 +0000
Subject: [PATCH 31/32] fix: mt_mat::unpooling handled signed bytes as unsigned

---
 basicmath/src/mt_pooling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index 648e262..12befba 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -1561,7 +1561,7 @@ mt_mat mt_mat::unpooling(const int* src_size, const mt_mat& mask_mat, mt_Pooling
 		private_pooling::unpooling<u8>(src, mask_mat, *this, pooling_type, size, kernel_sizes, strides);
 		break;
 	case mt_I8:
-		private_pooling::unpooling<u8>(src, mask_mat, *this, pooling_type, size, kernel_sizes, strides);
+		private_pooling::unpooling<i8>(src, mask_mat, *this, pooling_type, size, kernel_sizes, strides);
 		break;
 	case mt_U16:
 		private_pooling::unpooling<u16>(src, mask_mat, *this, pooling_type, size, kernel_sizes, strides);
-- 
2.43.0


From dd2df5aa989130ba172e2eb6a2db9969b9f671e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:03 +0000
Subject: [PATCH 32/32] fix: mt_mat::reduce handled every element type but
 float as double

---
 basicmath/src/mt_mat_math_operation.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 8397ab5..871d92d 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -3001,10 +3001,30 @@ void mt_mat::symmetry_eigen(mt_mat& eigen_value, mt_mat& eigen_vector) const {
 }
 
 mt_mat mt_mat::reduce(mt_mat::Reduce_Type type, i32 reduce_dim) const {
-	if (depth() == mt_F32) {
+	switch (depth()) {
+	case mt_U8:
+		return private_math_operation::reduce<u8>(*this, type, reduce_dim);
+	case mt_I8:
+		return private_math_operation::reduce<i8>(*this, type, reduce_dim);
+	case mt_U16:
+		return private_math_operation::reduce<u16>(*this, type, reduce_dim);
+	case mt_I16:
+		return private_math_operation::reduce<i16>(*this, type, reduce_dim);
+	case mt_U32:
+		return private_math_operation::reduce<u32>(*this, type, reduce_dim);
+	case mt_I32:
+		return private_math_operation::reduce<i32>(*this, type, reduce_dim);
+	case mt_U64:
+		return private_math_operation::reduce<u64>(*this, type, reduce_dim);
+	case mt_I64:
+		return private_math_operation::reduce<i64>(*this, type, reduce_dim);
+	case mt_F32:
 		return private_math_operation::reduce<f32>(*this, type, reduce_dim);
-	} else {
+	case mt_F64:
 		return private_math_operation::reduce<f64>(*this, type, reduce_dim);
+	default:
+		basiclog_unsupport2();
+		return mt_mat();
 	}
 }
 
-- 
2.43.0

