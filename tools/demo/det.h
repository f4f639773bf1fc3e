// Shared by the demonstrations: runs a detector and returns its regions as a multiset of (from min/max, gray, pixel number).
#include "stdafx.h"
#include "img_types.h"
#include "img_fast_mser_v1.h"
#include "img_fast_mser_v2.h"
#include <cstdio>
#include <cstdlib>
using namespace basicimg;
void cv::String::deallocate() {}
typedef std::multiset<std::vector<long> > MS;
static mt_mat image(int rows, int cols, int seed) {
	mt_mat g(rows, cols, mt_U8C1); srand(seed);
	for (int y = 0; y < rows; y++) { u8* p = g.data() + y * g.step()[0]; for (int x = 0; x < cols; x++) p[x] = ((x / 7 + y / 5) % 5) * 40 + rand() % 30; }
	return g;
}
template<class D> void setup(D& d, int n, int conn) {
	d.set_parallel_thread_number(n); d.set_connected_type((img_Connected_Type)conn);
	d.set_stable_delta(1); d.set_min_max_point(1, 1.0f); d.set_nms_similarity(-1);
}
template<class D> MS run(D& d, const mt_mat& g, bool rect = false) {
	img_multi_msers m; d.extract(m, g);
	MS s;
	for (int k = 0; k < 2; k++) for (int i = 0; i < (int)m.m_msers[k].size(); i++) {
		img_mser& r = m.m_msers[k][i];
		std::vector<long> v; v.push_back(k); v.push_back(r.m_gray_level); v.push_back(r.m_size);
		if (rect) { v.push_back(r.m_rect.m_left); v.push_back(r.m_rect.m_top); v.push_back(r.m_rect.m_width); v.push_back(r.m_rect.m_height); }
		s.insert(v);
	}
	return s;
}
template<class D> MS fresh(const mt_mat& g, int n, int conn) { D d; setup(d, n, conn); return run(d, g); }
