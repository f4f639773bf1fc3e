c='c_depth'
A='basicmath/src/mt_mat.cpp'; O='basicmath/src/mt_mat_math_operation.cpp'; Z='basicmath/src/mt_mat_serialize.cpp'; P='basicmath/src/mt_pooling.cpp'
T=['u8','i8','u16','i16','u32','i32','u64','i64','f32','f64']
s=open('/repo/'+A,newline='',encoding='latin-1').read().replace('\r\n','\n')
i=s.index('	if (depth() == other.depth()) {\n		switch (depth())'); j=s.index('	return *this;\n}\n\nmt_mat& mt_mat::set(double value)')
body=s[i:j]
def sw(e,f,ind='	'): return ind+'switch (%s) {\n'%e+''.join('%scase mt_%s:\n%s	%s\n%s	break;\n'%(ind,t.upper(),ind,f(t),ind) for t in T)+ind+'default:\n'+ind+'	basiclog_unsupport2();\n'+ind+'	break;\n'+ind+'}\n'
anchor='		template<class T>\n		static void set(mt_mat& mat, const f64* values, int value_size = 0) {'
helper='		template<class D>\n		static void set_from(mt_mat& mat, const mt_mat& src) {\n'+sw('src.depth()',lambda t:'set<D, %s>(mat, src);'%t,'			')+'		}\n\n'
end='		template<class Dst_Type, class Src_Type>\n		static void set(mt_mat& mat, const mt_mat& src) {'
M('g10tmpl',c,{A:[(body,sw('depth()',lambda t:'private_mat::set_from<%s>(*this, other);'%t)+'\n'),(end,helper+end)]})

eq=body[:body.index('	} else {')]
M('g10tmpl2',c,{A:[(body,eq+'	} else {\n'+sw('depth()',lambda t:'private_mat::set_from<%s>(*this, other);'%t,'		')+'	}\n\n'),(end,helper+end)]})
same='		static void set_same(mt_mat& mat, const mt_mat& src, mt_Depth depth) {\n'+sw('depth',lambda t:'set<%s, %s>(mat, src);'%(t,t),'			')+'		}\n\n'
M('g10same',c,{A:[(eq,'	if (depth() == other.depth()) {\n		private_mat::set_same(*this, other, depth());\n'),(end,end)],} if 0 else {A:[(eq,'	if (depth() == other.depth()) {\n		private_mat::set_same(*this, other, depth());\n'),('		static void set_data(u8* ptr_data, mt_Depth_Channel depth_channel, const vector<f64>& values) {',same+'		static void set_data(u8* ptr_data, mt_Depth_Channel depth_channel, const vector<f64>& values) {')]})
M('g10loc',c,{A:[('	if (depth() == other.depth()) {\n		switch (depth()) {','	const mt_Depth dst_depth = depth();\n	const mt_Depth src_depth = other.depth();\n	const bool same = dst_depth == src_depth;\n\n	if (same) {\n		switch (dst_depth) {')]})
M('g10flt',c,{O:[('	if (depth() == mt_F32) {\n		private_math_operation::activate<f32>(*this, *this,','	const bool single = depth() == mt_F32;\n\n	if (single) {\n		private_math_operation::activate<f32>(*this, *this,')]})
M('g10neg',c,{A:[('	if (depth() == mt_F32 || depth() == mt_F64) {','	const b8 floating = depth() == mt_F32 || depth() == mt_F64;\n\n	if (floating) {')]})
M('g10red',c,{O:[('	switch (depth()) {\n	case mt_U8:\n		return private_math_operation::reduce<u8>(*this, type, reduce_dim);\n','	if (depth() == mt_U8) {\n		return private_math_operation::reduce<u8>(*this, type, reduce_dim);\n	}\n\n	switch (depth()) {\n')]})
M('b10tmpl',c,{A:[(body,sw('depth()',lambda t:'private_mat::set_from<%s>(*this, other);'%t)+'\n'),(end,helper.replace('src.depth()','mat.depth()')+end)]})
M('b10swap',c,{A:[('private_mat::set<u16, f32>(*this, other)','private_mat::set<f32, u16>(*this, other)')]})
M('b10part',c,{A:[('						i16* temp_ptr_src = (i16*)ptr_data;\n						values[c]','						u16* temp_ptr_src = (u16*)ptr_data;\n						values[c]')]})
M('b10cond',c,{A:[('			if (depth() == mt_F32) {\n				const float*','			if (depth() == mt_F64) {\n				const float*')]})
M('b10ad',c,{'basicmath/src/mt_auto_derivative_tree.cpp':[('return mt_ad_helper::relu_derivate<f64>(src','return mt_ad_helper::relu_derivate<f32>(src')]})
M('b10size',c,{'basicmath/include/mt_data_type.h':[('{1, 1, 2, 2, 4, 4, 8, 8, 4, 8}','{1, 1, 2, 2, 4, 4, 8, 4, 4, 8}')]})
M('b10cv',c,{'basicimg/src/img_img.cpp':[('	case CV_16U:\n		return mt_U16;','	case CV_16U:\n		return mt_I16;')]})
M('b10int',c,{'basicmath/src/mt_auto_derivative_tree.cpp':[('	if (src.depth() == mt_F32) {\n		return mt_ad_helper::softmax','	if (src.depth() != mt_F64) {\n		return mt_ad_helper::softmax')]})
