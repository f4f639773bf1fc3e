V1='basicimg/src/img_fast_mser_v1.cpp'; V2='basicimg/src/img_fast_mser_v2.cpp'; LL='basicimg/src/img_linked_linear_mser.cpp'; MS='basicimg/src/img_ms_mser.cpp'; O='basicimg/src/img_opencv_mser.cpp'; O3='basicimg/src/img_opencv3_mser.cpp'
c='c_fill'
M('b6v2last',c,{V2:[("		//set the last row to be -1\n		for (col = 0; col < masked_image_width; ++col) {","		//set the last row to be -1\n		for (col = 1; col < masked_image_width; ++col) {")]})
M('b6v2cpt',c,{V2:[("u32 img_cpt = img.step()[0] - pinfo.m_width;","u32 img_cpt = img.size()[1] - pinfo.m_width;")]})
M('b6v2first',c,{V2:[("	if (gray_mask == 0 || !m_from_min_max[0]) {\n		u8* extended","	if (gray_mask == 0) {\n		u8* extended")]})
M('b6v2heap',c,{V2:[("pinfo.m_heap_start[i-1]+level_size[i-1]+1;","pinfo.m_heap_start[i-1]+level_size[i-1];")]})
M('b6v2heap2',c,{V2:[("	for ( i32 i = 1; i < 257; i++ ) {\n		pinfo.m_heap_start","	for ( i32 i = 1; i < 256; i++ ) {\n		pinfo.m_heap_start")]})
M('b6v2swap',c,{V2:[("i < 128; ++i","i < 127; ++i")]})
M('b6v2row',c,{V2:[("				for (col = 0; col < pinfo.m_width; ++col) {\n					*points++ = 0;\n				}\n\n				points += 2;","				for (col = 0; col < pinfo.m_width; ++col) {\n					*points++ = 0;\n				}\n\n				points += (pinfo.m_width > 1) ? 2 : 1;")]})
M('b6v2ext',c,{V2:[("				extended_image_data += 2;","				extended_image_data += masked_image_width - pinfo.m_width - (row == 0 ? 0 : 0) - (row > 300);")]})
M('b6v2ptr',c,{V2:[("img.ptr<u8>(pinfo.m_top, pinfo.m_left, 0);","img.ptr<u8>(pinfo.m_left, pinfo.m_top, 0);")]})
M('b6v2lvl',c,{V2:[("level_size[*img_data ^ gray_mask]++;","level_size[(*img_data ^ gray_mask) & 0xfe]++;")]})
M('b6v2clr',c,{V2:[("memset(level_size, 0, sizeof(u32) * 257);","memset(level_size, 0, sizeof(u32) * 256);")]})
M('b6v1inv',c,{V1:[("					gray = 0xff - *masked_image_data & 0x00ff;","					gray = 0xff - (*masked_image_data & 0x007f);")]})
M('b6v1flag',c,{V1:[("boundary_flag = *masked_image_data & Boundary_Yes_Mask;","boundary_flag = 0;")]})
M('b6v1two',c,{V1:[("				masked_image_data += 2;","				masked_image_data += 1;")]})
M('b6v1h1',c,{V1:[("				if (pinfo.m_height > 1) {\n					//last real image row","				if (pinfo.m_height > 2) {\n					//last real image row",'first')]})
M('b6v1lv',c,{V1:[("					//last real image col\n						gray = 0xff - *img_data++;\n						level_size[gray]++;".replace('					//last','						//last',1),"						//last real image col\n						gray = 0xff - *img_data++;")]})
M('b6v1memset',c,{V1:[("		memset(pinfo.m_level_size, 0, sizeof(u32) * 257);","		if (gray_mask == 0) {\n			memset(pinfo.m_level_size, 0, sizeof(u32) * 257);\n		}")]})
M('b6llmask',c,{LL:[("					if (0 == *mask_data) {","					if (1 != *mask_data) {",'first')]})
M('b6llstep',c,{LL:[("i32 mask_append_offset = (i32)mask.m_mask_image.step()[0] - m_mask_activate_rect.m_width;","i32 mask_append_offset = srcByteOffset;",)]})
M('b6llval',c,{LL:[("				mask.m_mask_value == *srcptr) {\n						srcValue = 256;	// gray level 256 for invalid pixel masked with 0\n					} else {\n						srcValue = 0xff - *srcptr;".replace('				mask','if (mask',1),"if (mask.m_mask_value == (0xff - *srcptr)) {\n						srcValue = 256;	// gray level 256 for invalid pixel masked with 0\n					} else {\n						srcValue = 0xff - *srcptr;")]})
M('b6lllv',c,{LL:[("	for ( i32 i = 0; i < 257; i++ ) {\n		level_size[i] = 0;","	for ( i32 i = 0; i < 256; i++ ) {\n		level_size[i] = 0;")]})
M('b6msxor',c,{MS:[("m_level_size[*img_data ^ gray_mask]++;","m_level_size[*img_data]++;")]})
M('b6mscpt',c,{MS:[("u32 img_cpt = img.step()[0] - width;","u32 img_cpt = 0;")]})
M('b6ocvcpt',c,{O:[("m_temp_image.step()[0] / sizeof(i16) - src.size()[1] - 2;","m_temp_image.step()[0] / sizeof(i16) - src.size()[1] - 1;")]})
M('b6ocvlast',c,{O:[("			*imgptr++ = -1;\n			imgptr += cpt_1;\n			srcptr += srcByteOffset;\n		}\n	} else {","			imgptr++;\n			imgptr += cpt_1;\n			srcptr += srcByteOffset;\n		}\n	} else {")]})
M('b6o3swap',c,{O3:[("		for(i32 i = 0; i < 128; i++ )\n			std::swap(level_size[i], level_size[255-i]);","		for(i32 i = 0; i < 128; i++ )\n			std::swap(level_size[i], level_size[254-i]);")]})
M('b6o3rows',c,{O3:[("m_pixbuf[j] = m_pixbuf[j + (rows-1)*step] = borderpix;","m_pixbuf[j] = m_pixbuf[j + (rows-1)*cols - (cols > 500)] = borderpix;")]})
M('b6o3cont',c,{O3:[("	if (!temp.is_continuous()) {\n		m_tempsrc.copy_from(temp);","	if (!temp.is_continuous() && m_tempsrc.empty()) {\n		m_tempsrc.copy_from(temp);")]})
M('b6o3val',c,{O3:[("			for(i32 j = 1; j < cols-1; j++ )\n			{\n				pptr[j].val = 0;","			for(i32 j = 2; j < cols-1; j++ )\n			{\n				pptr[j].val = 0;")]})
# preserving
M('g6v2memset',c,{V2:[("		for (col = 0; col < masked_image_width; ++col) {\n			*points++ = m_boundary_pixel;\n		}\n\n		extended_image_data","		for (u32* row_end = points + masked_image_width; points != row_end; ++points) {\n			*points = m_boundary_pixel;\n		}\n\n		extended_image_data")]})
M('g6v2gray',c,{V2:[("					level_size[*img_data ^ gray_mask]++;\n					*extended_image_data++ = *img_data++;","					u8 pixel = *img_data++;\n					level_size[(u8)(pixel ^ gray_mask)] += 1;\n					*extended_image_data++ = pixel;")]})
M('g6v2swap',c,{V2:[("		i32 temp;\n		for(i32 i = 0; i < 128; ++i) {\n			temp = level_size[i];\n			level_size[i] = level_size[255 - i];\n			level_size[255 - i] = temp;\n		}","		for (i32 low = 0, high = 255; low < high; ++low, --high) {\n			u32 count = level_size[high];\n			level_size[high] = level_size[low];\n			level_size[low] = count;\n		}")]})
M('g6v2std',c,{V2:[("		i32 temp;\n		for(i32 i = 0; i < 128; ++i) {\n			temp = level_size[i];\n			level_size[i] = level_size[255 - i];\n			level_size[255 - i] = temp;\n		}","		for (i32 i = 0; i < 128; ++i) {\n			std::swap(level_size[i], level_size[255 - i]);\n		}")]})
M('g6v2rev',c,{V2:[("		std::_","",0)] if 0 else [("		i32 temp;\n		for(i32 i = 0; i < 128; ++i) {\n			temp = level_size[i];\n			level_size[i] = level_size[255 - i];\n			level_size[255 - i] = temp;\n		}","		std::reverse(level_size, level_size + 256);")]})
M('g6v2heap',c,{V2:[("	pinfo.m_heap_start[0][0] = 0;\n	for ( i32 i = 1; i < 257; i++ ) {\n		pinfo.m_heap_start[i] = pinfo.m_heap_start[i-1]+level_size[i-1]+1;\n		pinfo.m_heap_start[i][0] = 0;\n	}","	u32** bucket = pinfo.m_heap_start[0];\n	*bucket = NULL;\n\n	for (i32 level = 0; level < 256; ++level) {\n		bucket += level_size[level] + 1;\n		*bucket = NULL;\n		pinfo.m_heap_start[level + 1] = bucket;\n	}")]})
M('g6v1inv',c,{V1:[("					gray = 0xff - *masked_image_data & 0x00ff;\n					*masked_image_data = gray | boundary_flag;","					gray = 255 - (u8)(*masked_image_data & 0x00ff);\n					*masked_image_data = boundary_flag | gray;")]})
M('g6llone',c,{LL:[("		if (gray_mask == 0) {\n			for (i32 row = 0; row < m_mask_activate_rect.m_height; ++row) {\n				*imgptr++ = -1;\n				for (i32 col = 0; col < m_mask_activate_rect.m_width; ++col) {\n					//BASICML_ASSERT(imgptr == image.ptr<i16>(row + 1, col + 1));\n					//BASICML_ASSERT(srcptr == src.ptr<u8>(row + activate_rect.m_top, col + activate_rect.m_left));\n\n					level_size[*srcptr]++;\n					*imgptr++ = *srcptr++;\n				}\n				*imgptr++ = -1;\n				srcptr += srcByteOffset;\n			}\n		} else {\n			i16 srcValue;\n			for (i32 row = 0; row < m_mask_activate_rect.m_height; ++row) {\n				*imgptr++ = -1;\n				for (i32 col = 0; col < m_mask_activate_rect.m_width; ++col) {\n					srcValue = 0xff - *srcptr++;\n					level_size[srcValue]++;\n					*imgptr++ = srcValue;\n				}\n				*imgptr++ = -1;\n				srcptr += srcByteOffset;\n			}\n		}","		for (i32 row = 0; row < m_mask_activate_rect.m_height; ++row) {\n			const u8* line = src.ptr<u8>(m_mask_activate_rect.m_top + row, m_mask_activate_rect.m_left, 0);\n			*imgptr++ = -1;\n\n			for (i32 col = 0; col < m_mask_activate_rect.m_width; ++col) {\n				i16 value = (gray_mask == 0) ? line[col] : 255 - line[col];\n				++level_size[value];\n				*imgptr++ = value;\n			}\n\n			*imgptr++ = -1;\n		}")]})
M('g6ocv',c,{O:[("	int level_size[256];\n	for ( int i = 0; i < 256; i++ ) {\n		level_size[i] = 0;\n	}","	int level_size[256];\n	memset(level_size, 0, sizeof(level_size));")]})
M('g6o3',c,{O3:[("			for( j = 1; j < cols-1; j++ )\n			{\n				int val = imgptr[j] ^ mask;\n				level_size[val]++;\n				pptr[j].val = 0;\n			}","			j = 1;\n\n			while (j < cols - 1)\n			{\n				pptr[j].val = 0;\n				++level_size[mask == 0 ? imgptr[j] : 255 - imgptr[j]];\n				++j;\n			}")]})
M('g6ms',c,{MS:[("	m_heap_start[0][0] = 0;\n	for ( i32 i = 1; i < 257; i++ ) {\n		m_heap_start[i] = m_heap_start[i-1] + m_level_size[i-1]+1;\n		m_heap_start[i][0] = 0;\n	}","	for (i32 i = 0; i < 257; ++i) {\n		if (i > 0) {\n			m_heap_start[i] = m_heap_start[i - 1] + (m_level_size[i - 1] + 1);\n		}\n\n		*m_heap_start[i] = NULL;\n	}")]})
