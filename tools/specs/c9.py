V1='basicimg/src/img_fast_mser_v1.cpp'; V2='basicimg/src/img_fast_mser_v2.cpp'; LL='basicimg/src/img_linked_linear_mser.cpp'; MS='basicimg/src/img_ms_mser.cpp'; O='basicimg/src/img_opencv_mser.cpp'; O3='basicimg/src/img_opencv3_mser.cpp'; OR='basicimg/src/img_origin_mser.cpp'; ID='basicimg/src/img_idiap_mser.cpp'; B='basicimg/src/img_mser_base.cpp'; VL='basicimg/src/img_vlfeat_mser.cpp'
c='c_reuse'
M('b9mp2',c,{V1:[("	m_merged_point_index = 0;\n","",('void img_fast_mser_v1::allocate_memory_parallel_2','m_merged_point_index = 0;'))]})
M('b9mpif',c,{V1:[("	m_merged_point_index = 0;\n","",('void img_fast_mser_v1::allocate_memory_parallel_4','m_merged_point_index = 0;')),("		m_merged_points = (i32*)malloc(sizeof(i32) * m_merged_point_size);\n","		m_merged_points = (i32*)malloc(sizeof(i32) * m_merged_point_size);\n		m_merged_point_index = 0;\n",('void img_fast_mser_v1::allocate_memory_parallel_4','m_merged_points = (i32*)malloc'))]})
M('b9pool',c,{ID:[("			poolIndex_ = 0;\n","")]})
M('b9origin',c,{OR:[("	resetPreInfo();\n\n	m_stack_top_index","	m_stack_top_index")]})
M('b9origin2',c,{OR:[("	m_regions.clear();\n","")]})
M('b9origin3',c,{OR:[("	m_stack_top_index = -1;\n\n	for","	for")]})
M('b9max',c,{B:[("	m_max_point = (i32)(m_max_point_ratio","	if (m_max_point == 0) m_max_point = (i32)(m_max_point_ratio")]})
M('b9res',c,{B:[("	res = img_multi_msers();\n","")]})
M('b9rls',c,{V1:[("	memset(m_region_level_size, 0, sizeof(u32) * 257);\n","",'first')]})
M('b9rls2',c,{V2:[("	memset(m_region_level_size, 0, sizeof(u32) * 257);\n","",'first')]})
M('b9ls',c,{V1:[("		memset(pinfo.m_level_size, 0, sizeof(u32) * 257);\n","",'first')]})
M('b9ls2',c,{V2:[("		memset(level_size, 0, sizeof(u32) * 257);\n","",'first')]})
M('b9acc',c,{ID:[("		m_accessible.resize(m_src.size()[0] * m_src.size()[1]);\n		memset(&m_accessible[0], 0, sizeof(b8) * m_accessible.size());","		m_accessible.resize(m_src.size()[0] * m_src.size()[1]);")]})
M('b9dir',c,{LL:[("		m_dir_max = 0x800;\n		m_dir_mask = 0x0e00;\n","")]})
M('b9hs',c,{LL:[("		m_heap = (i16**)malloc(sizeof(i16*) * m_heap_size);\n	}\n\n	m_heap_start[0] = &m_heap[0];","		m_heap = (i16**)malloc(sizeof(i16*) * m_heap_size);\n		m_heap_start[0] = &m_heap[0];\n	}\n")]})
M('b9rect',c,{LL:[("	m_mask_activate_rect.set_rect(mt_point(0, 0), mt_size(src.size()[1], src.size()[0]));\n	area = m_mask_activate_rect.getArea();","	if (m_heap == NULL) {\n		m_mask_activate_rect.set_rect(mt_point(0, 0), mt_size(src.size()[1], src.size()[0]));\n	}\n\n	area = m_mask_activate_rect.getArea();",'first')]})
M('b9reg',c,{V2:[("pinfo.m_mser_regions.init(","if (pinfo.m_mser_regions.memory_size() == 0) pinfo.m_mser_regions.init(",'first')]})
M('b9reg1',c,{V1:[("pinfo.m_mser_regions.init(","if (pinfo.m_mser_regions.memory_size() == 0) pinfo.m_mser_regions.init(",'first')]})
M('b9part',c,{V1:[("		pinfo.m_left = horizontal_index[h];\n","		if (pinfo.m_link_points == NULL) pinfo.m_left = horizontal_index[h];\n",'first')]})
M('b9ocv',c,{O3:[("	m_histbuf.resize(area);","	m_histbuf.resize(max(area, (i32)m_histbuf.size()));")]}) # equivalent
M('g9order',c,{B:[("	res = img_multi_msers();\n\n	m_channel_total_running_memory = 0;\n","	m_channel_total_running_memory = 0;\n	res = img_multi_msers();\n")]})
M('g9help',c,{B:[("	m_max_point = (i32)(m_max_point_ratio * gray_src.size()[0] * gray_src.size()[1]);","	const f64 pixels = (f64)gray_src.size()[0] * gray_src.size()[1];\n	m_max_point = (i32)(m_max_point_ratio * pixels);")]})
M('g9rls',c,{V1:[("	memset(m_region_level_size, 0, sizeof(u32) * 257);\n","	for (i32 i = 0; i < 257; ++i) {\n		m_region_level_size[i] = 0;\n	}\n",'first')]})
M('g9while',c,{OR:[("	for (i32 i = 0; i < (i32)m_link_pts.size(); ++i) {\n		m_link_pts[i].m_next = NULL;\n		m_link_pts[i].m_according_region = NULL;\n	}","	i32 i = 0;\n\n	while (i < (i32)m_link_pts.size()) {\n		linked_point& pt = m_link_pts[i];\n		pt.m_next = NULL;\n		pt.m_according_region = NULL;\n		++i;\n	}")]})
M('g9idiap',c,{ID:[("		memset(&m_accessible[0], 0, sizeof(b8) * m_accessible.size());\n	} ","		m_accessible.assign(m_accessible.size(), sys_false);\n	} ")]})
M('g9hs',c,{LL:[("	m_heap_start[0] = &m_heap[0];","	m_heap_start[0] = m_heap;",'first')]})
M('g9sw',c,{V1:[("		if (i == 0) {\n			//right","		const b8 first = i == 0;\n\n		if (first) {\n			//right",'first'),("		} else if (i == 1) {\n			//left","		} else {\n			//left",'first')]})
M('g9mp',c,{V1:[("	m_merged_point_index = 0;\n","",('void img_fast_mser_v1::allocate_memory_parallel_2','m_merged_point_index = 0;')),("		allocate_memory_parallel_2(img, mask);","		m_merged_point_index = 0;\n		allocate_memory_parallel_2(img, mask);",'first')]})
M('g9max',c,{B:[("	m_max_point = (i32)(m_max_point_ratio * gray_src.size()[0] * gray_src.size()[1]);\n	\n	basiclog_info2(m_max_point);\n","	const i32 limit = (i32)(m_max_point_ratio * gray_src.size()[0] * gray_src.size()[1]);\n	m_max_point = limit;\n	basiclog_info2(limit);\n")]})
