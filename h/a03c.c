// C side of A03: the C posting macro with every number of arguments.
#include <hogl/c-api/area.h>
#include <hogl/c-api/post.h>
void a03_c_post(void *area, unsigned s, unsigned n, const char *str)
{
	switch (n) {
	case 1: hogl_post(area, s, str); break;
	case 2: hogl_post(area, s, str, 1); break;
	case 3: hogl_post(area, s, str, 1, 2.5); break;
	case 4: hogl_post(area, s, 1, 2, 3, 4); break;
	case 5: hogl_post(area, s, 1, 2, 3, 4, 5); break;
	case 6: hogl_post(area, s, 1, 2, 3, 4, 5, str); break;
	case 7: hogl_post(area, s, 1, 2, 3, 4, 5, 6, 7); break;
	case 8: hogl_post(area, s, 1, 2, 3, 4, 5, 6, 7, 8); break;
	case 9: hogl_post(area, s, 1, 2, 3, 4, 5, 6, 7, 8, 9); break;
	case 10: hogl_post(area, s, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); break;
	case 11: hogl_post(area, s, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11); break;
	case 12: hogl_post(area, s, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); break;
	case 13: hogl_post(area, s, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13); break;
	case 14: hogl_post(area, s, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14); break;
	case 15: hogl_post(area, s, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15); break;
	default: hogl_post(area, s, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16); break;
	}
}
