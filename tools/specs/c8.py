V1='basicimg/src/img_fast_mser_v1.cpp'; V2='basicimg/src/img_fast_mser_v2.cpp'; LL='basicimg/src/img_linked_linear_mser.cpp'; MS='basicimg/src/img_ms_mser.cpp'; O='basicimg/src/img_opencv_mser.cpp'; O3='basicimg/src/img_opencv3_mser.cpp'; OR='basicimg/src/img_origin_mser.cpp'; VL='basicimg/src/img_vlfeat_mser.cpp'; B='basicimg/src/img_mser_base.cpp'
c='c_report'
M('b8base',c,{B:[("u8 gray_mask = (i == 0) ? 0 : 255;","u8 gray_mask = (i == 0 || !m_from_min_max[0]) ? 0 : 255;")]})
M('b8base2',c,{B:[("		if (m_from_min_max[i]) {","		if (m_from_min_max[i] || i == 0) {")]})
M('b8v1list',c,{V1:[("	vector<img_mser>& t_msers = msers.m_msers[(gray_mask == 0) ? 0 : 1];","	vector<img_mser>& t_msers = msers.m_msers[(gray_mask == 0 || !m_from_min_max[0]) ? 0 : 1];",('extract_pixel_parallel_k_fast(img_multi_msers& msers, u8 gray_mask) {',))]})
M('b8v1gray',c,{V1:[("		cur_mser.m_gray_level = cur_region->m_gray_level ^ gray_mask;","		cur_mser.m_gray_level = cur_region->m_gray_level;",('void img_fast_mser_v1::extract_pixel_parallel_4_simple_impl(',))]})
M('b8v1mem',c,{V1:[("	i32& region_memory_size = msers.m_memory_size[(gray_mask == 0) ? 0 : 1];","	i32& region_memory_size = msers.m_memory_size[(gray_mask != 0) ? 0 : 1];",('extract_pixel_parallel_k_fast(img_multi_msers& msers, u8 gray_mask) {',))]})
M('b8v2gray',c,{V2:[("			cur_mser.m_gray_level = cur_region->m_gray_level ^ gray_mask;","			cur_mser.m_gray_level = cur_region->m_gray_level ^ (gray_mask & 0xfe);",('void img_fast_mser_v2::extract_pixel_serial(',))]})
M('b8v2par',c,{V2:[("		cur_mser.m_gray_level = cur_region->m_gray_level ^ gray_mask;","		cur_mser.m_gray_level = cur_region->m_parent->m_gray_level ^ gray_mask;",('void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(',))]})
M('b8ll',c,{LL:[("		cur_mser.m_gray_level = (gray_mask == 0) ? cur_region->m_gray_level : (0xff - cur_region->m_gray_level);","		cur_mser.m_gray_level = (gray_mask == 0) ? cur_region->m_gray_level : (0x100 - cur_region->m_gray_level);",('void img_linked_linear_mser::extract_pixel_share_memory(',))]})
M('b8ocvneg',c,{O:[("	mserInfo.m_gray_level = (gray_mask == 0) ? (comp->mGrayLevel & 0x00ff) : (0xff - (comp->mGrayLevel & 0x00ff));","	mserInfo.m_gray_level = (gray_mask == 0) ? (comp->mGrayLevel & 0x00ff) : (0xff - (comp->mGrayLevel & 0x007f));")]})
M('b8ocv2',c,{O:[("								toMSERInfo(mserInfos.back(), comptr, gray_mask);","								toMSERInfo(mserInfos.back(), comptr, 0);")]})
M('b8o3',c,{O3:[("	wp.msers = &msers.m_msers[(gray_mask == 0) ? 0 : 1];","	wp.msers = &msers.m_msers[msers.m_msers[0].empty() ? 0 : 1];")]})
M('b8or',c,{OR:[("(gray_mask == 0) ? m_regions[i].mGrayLevel : 255 - m_regions[i].mGrayLevel;","(gray_mask == 0 || m_regions[i].mGrayLevel == 128) ? m_regions[i].mGrayLevel : 255 - m_regions[i].mGrayLevel;")]})
M('b8vl',c,{VL:[("f->er[r_shortcut].value ^ gray_mask;","f->er[r_shortcut].value;")]})
M('b8ms',c,{MS:[("			cur_mser.m_gray_level = cur_region->m_gray_level ^ gray_mask;","			cur_mser.m_gray_level = cur_region->m_gray_level ^ (u8)(-(i32)(gray_mask > 0));",'first')]})  # preserving
M('b8mslist',c,{MS:[("mt_point*& memory = msers.m_memory[(gray_mask == 0) ? 0 : 1];","mt_point*& memory = msers.m_memory[0];")]})
M('g8base',c,{B:[("	for (i32 i = 0; i < 2; ++i) {\n		if (m_from_min_max[i]) {\n			m_channel","	for (i32 i = 0; i < 2; ++i) {\n		if (!m_from_min_max[i]) {\n			continue;\n		}\n\n		{\n			m_channel")]})
M('g8v1',c,{V1:[("	vector<img_mser>& t_msers = msers.m_msers[(gray_mask == 0) ? 0 : 1];","	i32 pass = (gray_mask == 255) ? 1 : 0;\n	vector<img_mser>& t_msers = msers.m_msers[pass];",('extract_pixel_parallel_k_fast(img_multi_msers& msers, u8 gray_mask) {',)),("		cur_mser.m_gray_level = cur_region->m_gray_level ^ gray_mask;","		cur_mser.m_gray_level = (gray_mask == 0) ? cur_region->m_gray_level : (u8)(255 - cur_region->m_gray_level);",('extract_pixel_parallel_k_fast(img_multi_msers& msers, u8 gray_mask) {',))]})
M('g8ocv',c,{O:[("	mserInfo.m_gray_level = (gray_mask == 0) ? (comp->mGrayLevel & 0x00ff) : (0xff - (comp->mGrayLevel & 0x00ff));","	i32 level = comp->mGrayLevel & 0xff;\n\n	if (gray_mask != 0) {\n		level = 255 - level;\n	}\n\n	mserInfo.m_gray_level = level;")]})
M('g8vl',c,{VL:[("f->er[r_shortcut].value ^ gray_mask;","(gray_mask == 0) ? f->er[r_shortcut].value : ~f->er[r_shortcut].value;")]})
