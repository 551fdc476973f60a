/* Different 20-byte keys that have one and the same hash under every seed. The library's hash is h*65599+c modulo 2^64, so that keys of
 * equal length collide when the weighted sum of their differences vanishes; these are short vectors of that lattice. */
#ifndef VF_TWINS_H
#define VF_TWINS_H
enum { VF_TWIN_LEN = 20 };
static int const vf_twin_d[3][VF_TWIN_LEN] = {
	{5,-2,-2,-2,1,1,-2,3,2,1,-1,2,-1,2,3,-4,3,5,-2,0}, {-3,5,1,0,-1,-2,2,0,2,3,-4,1,-1,-4,-4,-1,2,-5,-2,-5}, {-1,1,-1,1,0,2,1,0,-3,4,0,-2,-1,0,4,3,2,-4,-1,-5}
};
/* family: which key the twins are twins of (letters only); which: 0..26, the twins of one family */
static size_t vf_twin_key(void *key, size_t family, size_t which) {
	char *k = key;
	for( size_t i=0; i<VF_TWIN_LEN; i++ ) { int c = 'm' + (int)((family + i*i) % 3); size_t w = which; for( int j=0; j<3; j++, w/=3 ) c += vf_twin_d[j][i]*((int)(w%3)-1); k[i] = (char)c; }
	return VF_TWIN_LEN;
}
#endif
