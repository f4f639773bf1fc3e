V1='basicimg/src/img_fast_mser_v1.cpp'; V2='basicimg/src/img_fast_mser_v2.cpp'; LL='basicimg/src/img_linked_linear_mser.cpp'; MS='basicimg/src/img_ms_mser.cpp'; O='basicimg/src/img_opencv_mser.cpp'; O3='basicimg/src/img_opencv3_mser.cpp'; OR='basicimg/src/img_origin_mser.cpp'; ID='basicimg/src/img_idiap_mser.cpp'; B='basicimg/src/img_mser_base.cpp'; VL='basicimg/src/img_vlfeat_mser.cpp'
c='c_reuse'
M('b9res2',c,{B:[("	res = img_multi_msers();\n","	for (i32 i = 0; i < 2; ++i) {\n		if (m_from_min_max[i]) {\n			res.m_msers[i].clear();\n			basicsys_free(res.m_memory[i]);\n			res.m_memory_size[i] = 0;\n		}\n	}\n")]})
M('b9conn',c,{V1:[("			pinfo.m_dir[0] = 1;\n			pinfo.m_dir[1] = 1 - row_step;","			if (m_pinfo.size() < 3)\n			pinfo.m_dir[0] = 1;\n			pinfo.m_dir[1] = 1 - row_step;",'first')]})
M('b9n1',c,{V1:[("	pinfo.m_boundary_regions[1] = NULL;\n","",'first')]})
