V1='basicimg/src/img_fast_mser_v1.cpp'; V2='basicimg/src/img_fast_mser_v2.cpp'
c='c_tiling'
# bugs
M('b4rem',c,{V2:[("widths[horizontal_partition_number - 1] = (u32)img.size()[1] - horizontal_paratition_indexes[horizontal_partition_number - 1];","widths[horizontal_partition_number - 1] = width + (u32)img.size()[1] % horizontal_partition_number - (u32)(img.size()[1] > 1000 ? 1 : 0);")]})
M('b4swap',c,{V2:[("		vertical_partition_indexes[i + 1] = vertical_partition_indexes[i] + height;","		vertical_partition_indexes[i + 1] = vertical_partition_indexes[i] + width;")]})
M('b4ptcond',c,{V2:[("	if (pt_size != m_point_size) {","	if (pt_size + 2 < m_point_size || pt_size > m_point_size + 2) {")]})
M('b4extcond',c,{V2:[("	if (pt_size != m_extended_image_size) {","	if (pt_size != m_extended_image_size && pt_size != m_heap_size) {")]})
M('b4heap',c,{V2:[("memory_offset_for_heap += patch_size + 257;","memory_offset_for_heap += patch_size + 256;")]})
M('b4off',c,{V2:[("memory_offset_with_boundary += pinfo.m_width_with_boundary * pinfo.m_height_with_boundary;","memory_offset_with_boundary += (pinfo.m_width + 2) * (pinfo.m_height + 1);")]})
M('b4wb',c,{V2:[("pinfo.m_height_with_boundary = heights[v] + 2;","pinfo.m_height_with_boundary = heights[v] + 1;")]})
M('b4first',c,{V2:[("pinfo.m_width_with_boundary = widths[h] + 2;","pinfo.m_width_with_boundary = widths[0] + 2;")]})
M('b4v8',c,{V1:[("(u32)img.size()[1] - 7 * p_width","(u32)img.size()[1] - 6 * p_width - p_width / 1 - (p_width & 0)",1)]})
M('b4b32',c,{V1:[("img.size()[0] * 14 + img.size()[1] * 6","img.size()[0] * 14 + img.size()[1] * 5")]})
M('b4b32b',c,{V1:[("			if (i <= 23) {","			if (i < 23) {")]})
M('b4b4side',c,{V1:[("				memory_offset_for_boundary_region += pinfo.m_height;\n				pinfo.m_boundary_regions[2] = NULL;","				memory_offset_for_boundary_region += pinfo.m_width;\n				pinfo.m_boundary_regions[2] = NULL;",'first')]})
M('b4hidx',c,{V1:[("u32 horizontal_index[2] = {0, left_width};\n	u32 vertical_index[2] = {0, top_height};\n	u32 widths[2] = {left_width, right_width};","u32 horizontal_index[2] = {0, right_width};\n	u32 vertical_index[2] = {0, top_height};\n	u32 widths[2] = {left_width, right_width};",'first')]})
M('b4hsz',c,{V1:[("u32 h_size = img.size()[0] * img.size()[1] + 257 * m_parallel_thread_number;","u32 h_size = img.size()[0] * img.size()[1] + 256 * (m_parallel_thread_number + 1);")]})
M('b4clr',c,{V1:[("	m_heap_size = 0;\n	m_masked_image_size = 0;\n	m_linked_point_size = 0;\n	m_boundary_region_size = 0;","	m_masked_image_size = 0;\n	m_linked_point_size = 0;\n	m_boundary_region_size = 0;")]})
M('b4msz',c,{V1:[("		m_masked_image_size = pt_size;\n		m_masked_image = (i16*)malloc(sizeof(i16) * m_masked_image_size);","		m_masked_image = (i16*)malloc(sizeof(i16) * m_masked_image_size);\n		m_masked_image_size = pt_size;",('allocate_memory_parallel_16(const mt_mat& img',))]})
M('b4u8',c,{V1:[("m_masked_image = (i16*)malloc(sizeof(i16) * m_masked_image_size);","m_masked_image = (i16*)malloc(sizeof(u8) * m_masked_image_size);",('allocate_memory_parallel_2(const mt_mat& img',))]})
M('b4resize',c,{V1:[("m_pinfo.resize(8);","if (m_pinfo.empty()) {\n		m_pinfo.resize(8);\n	}")]})
M('b4stale',c,{V1:[("			if (has_top) {\n				pinfo.m_boundary_regions[2] = m_boundary_regions + memory_offset_for_boundary_region;\n				memory_offset_for_boundary_region += pinfo.m_width;\n			} else {\n				pinfo.m_boundary_regions[2] = NULL;\n			}","			if (has_top) {\n				pinfo.m_boundary_regions[2] = m_boundary_regions + memory_offset_for_boundary_region;\n				memory_offset_for_boundary_region += pinfo.m_width;\n			}",('allocate_memory_parallel_32(const mt_mat& img',))]})
# behaviour preserving
M('g4order',c,{V2:[("			memory_offset_with_boundary += pinfo.m_width_with_boundary * pinfo.m_height_with_boundary;\n\n			i32 patch_size = pinfo.m_width * pinfo.m_height;","			i32 patch_size = pinfo.m_width * pinfo.m_height;\n			memory_offset_with_boundary += patch_size + 2 * (pinfo.m_width + pinfo.m_height) + 4;")]})
M('g4grow',c,{V2:[("	if (pt_size != m_point_size) {","	if (pt_size > m_point_size) {"),("	if (h_size != m_heap_size) {","	if (m_heap == NULL || h_size > m_heap_size) {")]})
M('g4vec',c,{V1:[("	u32 horizontal_index[8] = {0, p_width, 2 * p_width, 3 * p_width, 4 * p_width, 5 * p_width, 6 * p_width, 7 * p_width};","	u32 horizontal_index[8];\n\n	for (u32 k = 0; k < 8; ++k) {\n		horizontal_index[k] = k * p_width;\n	}\n")]})
M('g4sum',c,{V1:[("	u32 pt_size = (left_width + 2) * (top_height + 2) + (left_width + 2) * (bottom_height + 2) + (right_width + 2) * (top_height + 2) + (right_width + 2) * (bottom_height + 2); ","	u32 pt_size = ((u32)img.size()[1] + 4) * ((u32)img.size()[0] + 4);")]})
M('g4realloc',c,{V1:[("		if (m_masked_image != NULL) {\n			free(m_masked_image);\n		}\n\n		m_masked_image_size = pt_size;\n		m_masked_image = (i16*)malloc(sizeof(i16) * m_masked_image_size);","		basicsys_free(m_masked_image);\n		m_masked_image = (i16*)malloc(sizeof(i16) * pt_size);\n		m_masked_image_size = pt_size;",('allocate_memory_parallel_4(const mt_mat& img',))]})
M('g4swit',c,{V1:[("	if (m_parallel_thread_number == 1) {\n		allocate_memory_parallel_1(img, mask);\n	} else if (m_parallel_thread_number == 2) {\n		allocate_memory_parallel_2(img, mask);\n	} else if (m_parallel_thread_number == 4) {\n		allocate_memory_parallel_4(img, mask);\n	} else if (m_parallel_thread_number == 8) {\n		allocate_memory_parallel_8(img, mask);\n	} else if (m_parallel_thread_number == 16) {\n		allocate_memory_parallel_16(img, mask);\n	} else if (m_parallel_thread_number == 32) {\n		allocate_memory_parallel_32(img, mask);\n	}\n","	switch ((i32)m_parallel_thread_number) {\n	case 1: allocate_memory_parallel_1(img, mask); break;\n	case 2: allocate_memory_parallel_2(img, mask); break;\n	case 4: allocate_memory_parallel_4(img, mask); break;\n	case 8: allocate_memory_parallel_8(img, mask); break;\n	case 16: allocate_memory_parallel_16(img, mask); break;\n	case 32: allocate_memory_parallel_32(img, mask); break;\n	default: break;\n	}\n")]})
M('g4side',c,{V1:[("			if (i % 8 != 0) {\n				has_left = sys_true;\n			}\n\n			if (i <= 23) {\n				has_bottom = sys_true;\n			} \n\n			if (i > 7) {\n				has_top = sys_true;\n			}\n","			has_left = h > 0;\n			has_top = v > 0;\n			has_bottom = v + 1 < 4;\n")]})
M('g4extract',c,{V2:[("	u32 pt_size = 0;\n\n	for (u32 i = 0; i < horizontal_partition_number; ++i) {\n		for (u32 j = 0; j < vertical_partition_number; ++j) {\n			pt_size += (widths[i] + 2) * (heights[j] + 2);\n		}\n	}","	u32 pt_size = ((u32)img.size()[1] + 2 * horizontal_partition_number) * ((u32)img.size()[0] + 2 * vertical_partition_number);")]})
M('g4half',c,{V1:[("	u32 right_width = (u32)img.size()[1] - left_width;\n	u32 bottom_height = (u32)img.size()[0] - top_height;","	u32 right_width = ((u32)img.size()[1] + 1) / 2;\n	u32 bottom_height = ((u32)img.size()[0] + 1) >> 1;",('allocate_memory_parallel_4(const mt_mat& img',))]})
M('g4mod',c,{V2:[("widths[horizontal_partition_number - 1] = (u32)img.size()[1] - horizontal_paratition_indexes[horizontal_partition_number - 1];","widths[horizontal_partition_number - 1] = width + (u32)img.size()[1] % horizontal_partition_number;")]})
M('b4half',c,{V1:[("	u32 right_width = (u32)img.size()[1] - left_width;\n	u32 bottom_height = (u32)img.size()[0] - top_height;","	u32 right_width = ((u32)img.size()[1] + 2) / 2;\n	u32 bottom_height = ((u32)img.size()[0] + 1) >> 1;",('allocate_memory_parallel_4(const mt_mat& img',))]})
