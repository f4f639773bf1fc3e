V1='basicimg/src/img_fast_mser_v1.cpp'; V2='basicimg/src/img_fast_mser_v2.cpp'
c='c_seam'
M('b5omp',c,{V2:[("	for (i32 i = 0; i < 32; ++i) {\n		make_tree_patch","	for (i32 i = 0; i < 31; ++i) {\n		make_tree_patch")]})
M('b5p4',c,{V2:[("	parallel_indexes[1] = 1;\n	merge_tree_parallel_step(parallel_indexes, 2, 2, sys_false);","	merge_tree_parallel_step(parallel_indexes, 2, 2, sys_false);")]})
M('b5start',c,{V2:[("			start = 20;","			start = 12;")]})
M('b5vidx',c,{V2:[("	u32 start = 3;\n	u32 v_parallel_indexes[4] = {start, start + 8, start + 16, start + 24};\n	merge_tree_parallel_step(v_parallel_indexes, 4, 1, sys_true);","	u32 start = 3;\n	u32 v_parallel_indexes[4] = {start, start + 8, start + 16, start + 24};\n	merge_tree_parallel_step(v_parallel_indexes, 3, 1, sys_true);")]})
M('b5h8',c,{V2:[("	h_parallel_indexes[0] = 8;","	h_parallel_indexes[0] = 16;")]})
M('b5abase',c,{V2:[("m_pinfo[a_parallel_index].m_points + m_pinfo[a_parallel_index].m_width + a_step;","m_pinfo[a_parallel_index].m_points + m_pinfo[a_parallel_index].m_width + 1 + a_step;")]})
M('b5bstep',c,{V2:[("u32 b_step = m_pinfo[b_parallel_index].m_width_with_boundary;","u32 b_step = m_pinfo[a_parallel_index].m_width_with_boundary;")]})
M('b5hei',c,{V2:[("i < m_pinfo[a_parallel_index].m_height; ++i","i < m_pinfo[0].m_height; ++i")]})
M('b5bottom',c,{V2:[("m_pinfo[a_parallel_index].m_points + m_pinfo[a_parallel_index].m_height * m_pinfo[a_parallel_index].m_width_with_boundary + 1;","m_pinfo[a_parallel_index].m_points + (m_pinfo[a_parallel_index].m_height - 1) * m_pinfo[a_parallel_index].m_width_with_boundary + 1;")]})
M('b5real',c,{V2:[("				get_real_for_merged(a);\n				get_real_for_merged(b);\n\n				connect(a, b);\n\n				a_link","				get_real_for_merged(a);\n\n				connect(a, b);\n\n				a_link",'first')]})
M('b5at',c,{V2:[("b = &m_pinfo[b_parallel_index].m_mser_regions.at(*b_link_points - m_boundary_pixel);","b = &m_pinfo[a_parallel_index].m_mser_regions.at(*b_link_points - m_boundary_pixel);",'first')]})
M('b5nowait',c,{V2:[("#pragma omp parallel for num_threads(4)\n	for (i32 i = 0; i < 4; ++i) {\n		make_tree_patch(m_pinfo[i], src, mask, gray_mask, i);\n	}\n\n	merge_tree_parallel_4();","#pragma omp parallel num_threads(4)\n	{\n	#pragma omp for nowait\n	for (i32 i = 0; i < 4; ++i) {\n		make_tree_patch(m_pinfo[i], src, mask, gray_mask, i);\n	}\n\n	#pragma omp single\n	merge_tree_parallel_4();\n	}")]})
M('b5v1row',c,{V1:[("			if (v_partition_index >= size - 1) {\n				v_partition_index = size - 1;\n			}\n\n			i32 v_partition_inner_row","			if (v_partition_index > size - 1) {\n				v_partition_index = size - 2;\n			}\n\n			i32 v_partition_inner_row",('merge_tree_parallel_step(const mt_mat& src',))]})
M('b5v1base',c,{V1:[("b_base = &m_pinfo[parallel_indexes[v_partition_index] + parallel_step].m_boundary_regions[2][0];","b_base = &m_pinfo[parallel_indexes[v_partition_index] + parallel_step].m_boundary_regions[3][0];",('merge_tree_parallel_step(const mt_mat& src',))]})
M('b5v1order',c,{V1:[("			order_indexes[gray_integral[g]++] = row;","			order_indexes[gray_integral[g]] = row;",('merge_tree_parallel_step(const mt_mat& src',))]})
M('b5v1g',c,{V1:[("			if ((gray_mask == 0) ? (* (data + row_step) < g) : (* (data + row_step) > g)) {\n				g = * (data + col_step);\n			}\n\n			order_indexes","			if ((gray_mask == 0) ? (* (data + row_step) < g) : (* (data + row_step) > g)) {\n				g = * (data + row_step);\n			}\n\n			order_indexes",('merge_tree_parallel_step(const mt_mat& src',))]})
M('b5v1memset',c,{V1:[("	memset(gray_number, 0, 256 * sizeof(i32));","	memset(gray_number, 0, 255 * sizeof(i32));",('merge_tree_parallel_step(const mt_mat& src',))]})
M('b5integral',c,{'basicmath/include/mt_helper.h':[("",""  ,0)]} if 0 else {V1:[("mt_helper::integral_array(gray_integral, gray_number, gray_number + 256);","mt_helper::integral_array(gray_integral, gray_number, gray_number + 255);",('merge_tree_parallel_step(const mt_mat& src',))]})
# preserving
M('g5v2order',c,{V2:[("	u32 parallel_indexes[2] = {0, 2};\n	merge_tree_parallel_step(parallel_indexes, 2, 1, sys_true);\n	parallel_indexes[1] = 1;\n	merge_tree_parallel_step(parallel_indexes, 2, 2, sys_false);","	u32 top[2] = {0, 1};\n	merge_tree_parallel_step(top, 2, 2, sys_false);\n	u32 left[2] = {0, 2};\n	merge_tree_parallel_step(left, 2, 1, sys_true);")]})
M('g5v2ref',c,{V2:[("			u32 a_step = m_pinfo[a_parallel_index].m_width_with_boundary;\n			u32 b_step = m_pinfo[b_parallel_index].m_width_with_boundary;","			const parallel_info& left = m_pinfo[a_parallel_index];\n			const parallel_info& right = m_pinfo[b_parallel_index];\n			u32 a_step = left.m_width_with_boundary;\n			u32 b_step = right.m_width_with_boundary;"),("u32* b_link_points = m_pinfo[b_parallel_index].m_points + 1 + b_step;","u32* b_link_points = right.m_points + 1 + b_step;")]})
M('g5v2rev',c,{V2:[("			for (i32 i = 0; i < m_pinfo[a_parallel_index].m_height; ++i) {","			for (i32 rest = m_pinfo[a_parallel_index].m_height; rest > 0; --rest) {")]})
M('g5v2start',c,{V2:[("		u32 start;\n\n		if (i == 0) {\n			start = 0;\n		} else if (i == 1) {\n			start = 4;\n		} else if (i == 2) {\n			start = 16;\n		} else {\n			start = 20;\n		}","		u32 start = (i / 2) * 16 + (i % 2) * 4;")]})
M('g5v1min',c,{V1:[("			if (v_partition_index >= size - 1) {\n				v_partition_index = size - 1;\n			}\n\n			i32 v_partition_inner_row","			v_partition_index = (v_partition_index < size) ? v_partition_index : size - 1;\n\n			i32 v_partition_inner_row",('merge_tree_parallel_step(const mt_mat& src',))]})
M('g5v1swapab',c,{V1:[("			connect(a, b, split_patch_index);\n		}\n	} else {","			connect(b, a, split_patch_index);\n		}\n	} else {",('merge_tree_parallel_step(const mt_mat& src',))]})
M('g5v1g2',c,{V1:[("			if ((gray_mask == 0) ? (* (data + col_step) < g) : (* (data + col_step) > g)) {\n				g = * (data + col_step);\n			}\n\n			++gray_number[g];","			u8 other = data[col_step];\n			g = (gray_mask == 0) ? std::min(g, other) : std::max(g, other);\n			gray_number[g] += 1;",('merge_tree_parallel_step(const mt_mat& src',))]})
