V1='basicimg/src/img_fast_mser_v1.cpp'; V2='basicimg/src/img_fast_mser_v2.cpp'; LL='basicimg/src/img_linked_linear_mser.cpp'; MS='basicimg/src/img_ms_mser.cpp'; O='basicimg/src/img_opencv_mser.cpp'; O3='basicimg/src/img_opencv3_mser.cpp'
c='c_neigh'
M('b7v1dir5',c,{V1:[("				pinfo.m_dir[5] = -1 + row_step;","				pinfo.m_dir[5] = 1 + row_step;",('allocate_memory_parallel_32(const mt_mat& img',))]})
M('b7v1mask',c,{V1:[("		m_dir_max = 0x1000;\n		m_dir_mask = 0x1e00;","		m_dir_max = 0x0e00;\n		m_dir_mask = 0x1e00;")]})
M('b7v1add',c,{V1:[("					*imgptr += 0x200;\n					heap_cur += offset;","					heap_cur += offset;")]})
M('b7v1mark',c,{V1:[("			if ( *imgptr_nbr >= 0 ) {\n\n				*imgptr_nbr |= 0x8000; // mark it as visited\n\n				offset = ((*imgptr_nbr)&0x01ff)-((*imgptr)&0x01ff);\n\n				if (offset < 0) {","			if ( *imgptr_nbr >= 0 ) {\n\n				offset = ((*imgptr_nbr)&0x01ff)-((*imgptr)&0x01ff);\n\n				if (offset < 0) {\n					*imgptr_nbr |= 0x8000; // mark it as visited")]})
M('b7v1init',c,{V1:[("	init_comp(comptr, cur_region, patch_index);\n	*imgptr |= 0x8000;","	init_comp(comptr, cur_region, patch_index);")]})
M('b7v1le',c,{V1:[("				if (offset < 0) {","				if (offset <= 0) {")]})
M('b7v2one',c,{V2:[("					curr_gray = nbr_gray;\n					nbr_index = 1;\n					continue;","					curr_gray = nbr_gray;\n					nbr_index = 2;\n					continue;")]})
M('b7v2shift',c,{V2:[("					*points = (nbr_index + 1) << m_dir_shift;","					*points = nbr_index << m_dir_shift;")]})
M('b7v2bound',c,{V2:[("		m_boundary_pixel = 9 << m_dir_shift;","		m_boundary_pixel = 8 << m_dir_shift;")]})
M('b7v2mark',c,{V2:[("				*nbr_points = 1 << m_dir_shift;\n","				if (nbr_gray != curr_gray) *nbr_points = 1 << m_dir_shift;\n")]})
M('b7v2final',c,{V2:[("		*points = (nbr_index << m_dir_shift) | comptr->m_region->m_er_index;","		*points = (((nbr_index - 4) / 5) << m_dir_shift) | comptr->m_region->m_er_index;")]})
M('b7v2row',c,{V2:[("			i32 row_step = widths[h] + 2;","			i32 row_step = widths[0] + 2;")]})
M('b7v2heap',c,{V2:[("*(++heap_cur[nbr_gray - curr_gray]) = nbr_points;","*(++heap_cur[curr_gray - curr_gray]) = nbr_points;")]})
M('b7ll',c,{LL:[("		m_dir[3] = row_step;","		m_dir[3] = row_step - 1;")]})
M('b7ms4',c,{MS:[("		m_dir[2] = -1;\n		m_dir[3] = row_step;","		m_dir[2] = -1;\n		m_dir[3] = -row_step;")]})
M('b7msstart',c,{MS:[("	u32* points = m_points + 1 + img.size()[1] + 2;","	u32* points = m_points + 1 + img.size()[0] + 2;")]})
M('b7ocvmask',c,{O:[("		while ( ((*imgptr)&0x0700) < 0x400 ) {","		while ( ((*imgptr)&0x0700) < 0x300 ) {")]})
M('b7ocvnbr',c,{O:[("m_dir[((*imgptr)&0x0700)>>8]","m_dir[((*imgptr)&0x0300)>>8]")]})
M('b7o3nbr',c,{O3:[("					nbr_idx = 0;\n					continue;","					nbr_idx = 1;\n					continue;")]})
M('b7o3dir',c,{O3:[("int dir[] = { 0, 1, step, -1, -step };","int dir[] = { 0, 1, step, 1, -step };")]})
M('b7o3fin',c,{O3:[("		for( ; nbr_idx <= 4; nbr_idx++ )","		for( ; nbr_idx < 4; nbr_idx++ )")]})
M('b7o3res',c,{O3:[("ptr->val = (nbr_idx+1) << DIR_SHIFT;","ptr->val = (nbr_idx+2) << DIR_SHIFT;")]})
M('b7v1boundary',c,{V1:[("	i16* ioptr = pinfo.m_masked_image_data + 1 + pinfo.m_width_with_boundary;","	i16* ioptr = pinfo.m_masked_image_data + 1 + pinfo.m_width;")]})
M('b7llpop',c,{LL:[("**heap_cur = imgptr;","**heap_cur = imgptr_nbr;")]})
# preserving
M('g7v1for',c,{V1:[("		while ( (dir_masked = ((*imgptr)&m_dir_mask)) < m_dir_max ) {","		for ( ; ; ) {\n			dir_masked = ((*imgptr)&m_dir_mask);\n\n			if (dir_masked >= m_dir_max) {\n				break;\n			}\n")]})
M('g7v1not',c,{V1:[("				if (offset < 0) {\n					// when the value of neighbor smaller than current\n					// push current to boundary heap and make the neighbor to be the current one\n					// create an empty comp\n					(*heap_cur)++;\n					**heap_cur = imgptr;\n					*imgptr += 0x200;\n					heap_cur += offset;\n","				if (offset < 0) {\n					*imgptr = *imgptr + 0x200;\n					*(++*heap_cur) = imgptr;\n					heap_cur = heap_cur + offset;\n")]})
M('g7v2cont',c,{V2:[("			if ((*nbr_points & m_dir_mask) == 0) {\n				nbr_gray = get_gray(nbr_points);","			if ((*nbr_points & m_dir_mask) != 0) {\n				++nbr_index;\n				continue;\n			}\n\n			{\n				nbr_gray = get_gray(nbr_points);")]})
M('g7v2dirs',c,{V2:[("				pinfo.m_dir[1] = 1;\n				pinfo.m_dir[2] = -row_step;\n				pinfo.m_dir[3] = -1;\n				pinfo.m_dir[4] = row_step;","				i32 steps[4] = {row_step, 1, -row_step, -1};\n\n				for (i32 k = 0; k < 4; ++k) {\n					pinfo.m_dir[k + 1] = steps[k];\n				}")]})
M('g7o3',c,{O3:[("			if( !ptr_nbr->isVisited() )\n			{\n				// set dir=1, next=0\n				ptr_nbr->val = 1 << DIR_SHIFT;\n				int nbr_gray = ptr_nbr->getGray(ptr0, imgptr0, gray_mask);","			if( !ptr_nbr->isVisited() )\n			{\n				int nbr_gray = ptr_nbr->getGray(ptr0, imgptr0, gray_mask);\n				ptr_nbr->setDir(1);")]})
M('g7ms',c,{MS:[("				if (nbr_gray < curr_gray) {\n					// when the value of neighbor smaller than current\n					// push current to boundary heap and make the neighbor to be the current one\n					// create an empty comp\n					*++(*heap_cur) = points;\n					*points = (nbr_index + 1) << m_dir_shift;\n					heap_cur += (nbr_gray - curr_gray);\n","				b8 darker = nbr_gray < curr_gray;\n\n				if (darker) {\n					*++(*heap_cur) = points;\n					*points = (u32)(nbr_index + 1) << m_dir_shift;\n					heap_cur += (nbr_gray - curr_gray);\n")]})
