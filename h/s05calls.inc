// Made by tools/gen_s05.py
#ifdef P
FN(0, P(area, sect, v->b);)
FN(1, P(area, sect, v->c);)
FN(2, P(area, sect, v->sc);)
FN(3, P(area, sect, v->uc);)
FN(4, P(area, sect, v->s);)
FN(5, P(area, sect, v->us);)
FN(6, P(area, sect, v->i);)
FN(7, P(area, sect, v->u);)
FN(8, P(area, sect, v->l);)
FN(9, P(area, sect, v->ul);)
FN(10, P(area, sect, v->ll);)
FN(11, P(area, sect, v->ull);)
FN(12, P(area, sect, v->f);)
FN(13, P(area, sect, v->d);)
FN(14, P(area, sect, v->p);)
FN(15, P(area, sect, v->cp);)
FN(16, P(area, sect, v->ip);)
FN(17, P(area, sect, v->cip);)
FN(18, P(area, sect, v->vp);)
FN(19, P(area, sect, v->ucp);)
FN(20, P(area, sect, v->i8);)
FN(21, P(area, sect, v->u8);)
FN(22, P(area, sect, v->i16);)
FN(23, P(area, sect, v->u16);)
FN(24, P(area, sect, v->i32);)
FN(25, P(area, sect, v->u32);)
FN(26, P(area, sect, v->i64);)
FN(27, P(area, sect, v->u64);)
FN(28, P(area, sect, v->sz);)
FN(29, P(area, sect, v->cs);)
FN(30, P(area, sect, v->ms);)
FN(31, P(area, sect, hogl_string(v->arr));)
FN(32, P(area, sect, v->nul);)
FN(33, P(area, sect, hogl_string(v->ms));)
FN(34, P(area, sect, hogl_pointer(v->cs));)
FN(35, P(area, sect, hogl_string(v->uarr));)
FN(36, P(area, sect, hogl_pointer(v->ip));)
FN(37, P(area, sect, v->ci);)
FN(38, P(area, sect, v->cu);)
FN(39, P(area, sect, v->cd);)
FN(40, P(area, sect, v->cll);)
FN(41, P(area, sect, args);)
FN(42, P(area, sect, x0);)
FN(43, P(area, sect, i);)
FN(44, P(area, sect, un);)
FN(45, P(area, sect, "a literal");)
FN(46, P(area, sect, "");)
FN(47, P(area, sect, (char) 65);)
FN(48, P(area, sect, 5);)
FN(49, P(area, sect, -5);)
FN(50, P(area, sect, 5u);)
FN(51, P(area, sect, 5l);)
FN(52, P(area, sect, 5ul);)
FN(53, P(area, sect, -5ll);)
FN(54, P(area, sect, 5ull);)
FN(55, P(area, sect, 2.5);)
FN(56, P(area, sect, 2.5f);)
FN(57, P(area, sect, 1 + v->i / 2);)
FN(58, P(area, sect, v->b ? v->i : 3);)
FN(59, P(area, sect, (_BOOL) !v->i);)
FN(60, P(area, sect, v->c + 1);)
FN(61, P(area, sect, (short) (v->i >> 3));)
FN(62, P(area, sect, v->d * 2);)
FN(63, P(area, sect, (unsigned char) v->i);)
FN(64, P(area, sect, v->arr + 1);)
FN(65, P(area, sect, v->cs + v->n % 3);)
FN(66, P(area, sect, &v->i);)
FN(67, P(area, sect, (const void *) &v->d);)
FN(68, P(area, sect, (_BOOL) (v->i & 1));)
FN(69, P(area, sect, v->sz - 1);)
FN(70, P(area, sect, ~v->u);)
FN(71, P(area, sect, (float) v->d);)
FN(72, P(area, sect, count++);)
FN(73, P(area, sect, ++count);)
FN(74, P(area, sect, next(&count));)
FN(75, P(area, sect, (void *) 0);)
FN(76, P(area, sect, (char *) 0);)
FN(77, P(area, sect, *v->cs);)
FN(78, P(area, sect, *v->ip);)
FN(79, P(area, sect, -v->f);)
FN(80, P(area, sect, v->ull << 3);)
FN(81, P(area, sect, v->l % 7);)
FN(82, P(area, sect, v->fmt, v->b);)
FN(83, P(area, sect, v->fmt, v->c);)
FN(84, P(area, sect, v->fmt, v->sc);)
FN(85, P(area, sect, v->fmt, v->uc);)
FN(86, P(area, sect, v->fmt, v->s);)
FN(87, P(area, sect, v->fmt, v->us);)
FN(88, P(area, sect, v->fmt, v->i);)
FN(89, P(area, sect, v->fmt, v->u);)
FN(90, P(area, sect, v->fmt, v->l);)
FN(91, P(area, sect, v->fmt, v->ul);)
FN(92, P(area, sect, v->fmt, v->ll);)
FN(93, P(area, sect, v->fmt, v->ull);)
FN(94, P(area, sect, v->fmt, v->f);)
FN(95, P(area, sect, v->fmt, v->d);)
FN(96, P(area, sect, v->fmt, v->p);)
FN(97, P(area, sect, v->fmt, v->cp);)
FN(98, P(area, sect, v->fmt, v->ip);)
FN(99, P(area, sect, v->fmt, v->cip);)
FN(100, P(area, sect, v->fmt, v->vp);)
FN(101, P(area, sect, v->fmt, v->ucp);)
FN(102, P(area, sect, v->fmt, v->i8);)
FN(103, P(area, sect, v->fmt, v->u8);)
FN(104, P(area, sect, v->fmt, v->i16);)
FN(105, P(area, sect, v->fmt, v->u16);)
FN(106, P(area, sect, v->fmt, v->i32);)
FN(107, P(area, sect, v->fmt, v->u32);)
FN(108, P(area, sect, v->fmt, v->i64);)
FN(109, P(area, sect, v->fmt, v->u64);)
FN(110, P(area, sect, v->fmt, v->sz);)
FN(111, P(area, sect, v->fmt, v->cs);)
FN(112, P(area, sect, v->fmt, v->ms);)
FN(113, P(area, sect, v->fmt, hogl_string(v->arr));)
FN(114, P(area, sect, v->fmt, v->nul);)
FN(115, P(area, sect, v->fmt, hogl_string(v->ms));)
FN(116, P(area, sect, v->fmt, hogl_pointer(v->cs));)
FN(117, P(area, sect, v->fmt, hogl_string(v->uarr));)
FN(118, P(area, sect, v->fmt, hogl_pointer(v->ip));)
FN(119, P(area, sect, v->fmt, v->ci);)
FN(120, P(area, sect, v->fmt, v->cu);)
FN(121, P(area, sect, v->fmt, v->cd);)
FN(122, P(area, sect, v->fmt, v->cll);)
FN(123, P(area, sect, v->fmt, args);)
FN(124, P(area, sect, v->fmt, x0);)
FN(125, P(area, sect, v->fmt, i);)
FN(126, P(area, sect, v->fmt, un);)
FN(127, P(area, sect, v->fmt, "a literal");)
FN(128, P(area, sect, v->fmt, "");)
FN(129, P(area, sect, v->fmt, (char) 65);)
FN(130, P(area, sect, v->fmt, 5);)
FN(131, P(area, sect, v->fmt, -5);)
FN(132, P(area, sect, v->fmt, 5u);)
FN(133, P(area, sect, v->fmt, 5l);)
FN(134, P(area, sect, v->fmt, 5ul);)
FN(135, P(area, sect, v->fmt, -5ll);)
FN(136, P(area, sect, v->fmt, 5ull);)
FN(137, P(area, sect, v->fmt, 2.5);)
FN(138, P(area, sect, v->fmt, 2.5f);)
FN(139, P(area, sect, v->fmt, 1 + v->i / 2);)
FN(140, P(area, sect, v->fmt, v->b ? v->i : 3);)
FN(141, P(area, sect, v->fmt, (_BOOL) !v->i);)
FN(142, P(area, sect, v->fmt, v->c + 1);)
FN(143, P(area, sect, v->fmt, (short) (v->i >> 3));)
FN(144, P(area, sect, v->fmt, v->d * 2);)
FN(145, P(area, sect, v->fmt, (unsigned char) v->i);)
FN(146, P(area, sect, v->fmt, v->arr + 1);)
FN(147, P(area, sect, v->fmt, v->cs + v->n % 3);)
FN(148, P(area, sect, v->fmt, &v->i);)
FN(149, P(area, sect, v->fmt, (const void *) &v->d);)
FN(150, P(area, sect, v->fmt, (_BOOL) (v->i & 1));)
FN(151, P(area, sect, v->fmt, v->sz - 1);)
FN(152, P(area, sect, v->fmt, ~v->u);)
FN(153, P(area, sect, v->fmt, (float) v->d);)
FN(154, P(area, sect, v->fmt, count++);)
FN(155, P(area, sect, v->fmt, ++count);)
FN(156, P(area, sect, v->fmt, next(&count));)
FN(157, P(area, sect, v->fmt, (void *) 0);)
FN(158, P(area, sect, v->fmt, (char *) 0);)
FN(159, P(area, sect, v->fmt, *v->cs);)
FN(160, P(area, sect, v->fmt, *v->ip);)
FN(161, P(area, sect, v->fmt, -v->f);)
FN(162, P(area, sect, v->fmt, v->ull << 3);)
FN(163, P(area, sect, v->fmt, v->l % 7);)
FN(164, P(area, sect, -v->f, v->nul);)
FN(165, P(area, sect, "a literal", (const void *) &v->d);)
FN(166, P(area, sect, v->uc, (_BOOL) !v->i);)
FN(167, P(area, sect, hogl_string(v->arr), v->i);)
FN(168, P(area, sect, v->i8, v->p);)
FN(169, P(area, sect, (char) 65, v->c + 1);)
FN(170, P(area, sect, hogl_string(v->arr), 5);)
FN(171, P(area, sect, v->sz - 1, v->d);)
FN(172, P(area, sect, ++count, hogl_string(v->arr));)
FN(173, P(area, sect, v->c, v->u64, 5ul);)
FN(174, P(area, sect, hogl_string(v->uarr), v->u16, -5);)
FN(175, P(area, sect, v->i8, v->ul, v->cip);)
FN(176, P(area, sect, -v->f, -v->f, 2.5f);)
FN(177, P(area, sect, v->ip, v->ip, v->b);)
FN(178, P(area, sect, v->b, v->i64, v->u64);)
FN(179, P(area, sect, v->u8, v->u8, v->ci);)
FN(180, P(area, sect, v->cll, v->u32, v->sz - 1);)
FN(181, P(area, sect, v->ull << 3, v->i64, v->u16);)
FN(182, P(area, sect, v->u32, -5, v->cu, v->sc);)
FN(183, P(area, sect, "", -5ll, v->u8, v->vp);)
FN(184, P(area, sect, hogl_string(v->ms), v->l, x0, v->cu);)
FN(185, P(area, sect, *v->cs, (void *) 0, v->b, (char *) 0);)
FN(186, P(area, sect, i, v->l, v->cd, "a literal");)
FN(187, P(area, sect, v->cd, (short) (v->i >> 3), v->cll, v->u16);)
FN(188, P(area, sect, (short) (v->i >> 3), v->c + 1, v->i16, v->u);)
FN(189, P(area, sect, v->nul, v->sc, "a literal", 5l);)
FN(190, P(area, sect, v->sc, ~v->u, -5ll, "");)
FN(191, P(area, sect, 5, next(&count), v->c, 1 + v->i / 2, v->us);)
FN(192, P(area, sect, v->u16, -v->f, v->u32, v->cp, hogl_string(v->arr));)
FN(193, P(area, sect, (_BOOL) !v->i, un, v->cs + v->n % 3, "a literal", (const void *) &v->d);)
FN(194, P(area, sect, v->nul, (_BOOL) !v->i, v->d, (void *) 0, (char) 65);)
FN(195, P(area, sect, v->ci, v->s, 2.5, v->ull, v->i64);)
FN(196, P(area, sect, i, v->cs + v->n % 3, *v->ip, "", v->vp);)
FN(197, P(area, sect, i, hogl_string(v->uarr), v->sz - 1, v->ull, v->cd);)
FN(198, P(area, sect, v->cll, v->cd, v->i16, v->ll, v->ull << 3);)
FN(199, P(area, sect, v->ucp, v->cd, (short) (v->i >> 3), v->i8, v->i);)
FN(200, P(area, sect, v->ll, (char *) 0, (_BOOL) (v->i & 1), 5l, v->s, v->ms);)
FN(201, P(area, sect, (char *) 0, un, v->nul, v->b ? v->i : 3, -5ll, v->vp);)
FN(202, P(area, sect, v->u, v->l % 7, v->s, (unsigned char) v->i, x0, v->i64);)
FN(203, P(area, sect, v->ip, count++, v->ip, v->ull << 3, 5ul, v->d);)
FN(204, P(area, sect, v->u8, 2.5, (char) 65, v->ucp, v->u, -5ll);)
FN(205, P(area, sect, v->ci, v->vp, v->b ? v->i : 3, -v->f, v->u8, &v->i);)
FN(206, P(area, sect, v->b ? v->i : 3, v->d * 2, v->cll, (short) (v->i >> 3), hogl_string(v->uarr), v->ci);)
FN(207, P(area, sect, v->c + 1, 5l, v->vp, v->p, 5, (_BOOL) (v->i & 1));)
FN(208, P(area, sect, v->i16, v->ull << 3, (unsigned char) v->i, i, v->u16, v->ull);)
FN(209, P(area, sect, v->d * 2, hogl_pointer(v->cs), v->cs + v->n % 3, ~v->u, v->arr + 1, "", v->l);)
FN(210, P(area, sect, "a literal", (void *) 0, v->s, v->cd, "", (float) v->d, hogl_string(v->uarr));)
FN(211, P(area, sect, v->d * 2, hogl_string(v->ms), v->ci, i, v->i16, next(&count), v->c);)
FN(212, P(area, sect, v->c + 1, ~v->u, v->nul, args, hogl_string(v->uarr), (_BOOL) !v->i, hogl_pointer(v->ip));)
FN(213, P(area, sect, v->arr + 1, "a literal", un, hogl_string(v->uarr), un, 5ul, un);)
FN(214, P(area, sect, v->i16, 1 + v->i / 2, "", x0, &v->i, v->vp, (const void *) &v->d);)
FN(215, P(area, sect, v->u8, v->u32, "", (short) (v->i >> 3), hogl_pointer(v->ip), v->ll, -5ll);)
FN(216, P(area, sect, v->u8, *v->ip, next(&count), &v->i, -5ll, v->cu, -v->f);)
FN(217, P(area, sect, ~v->u, v->l % 7, hogl_pointer(v->cs), v->uc, v->u32, v->i8, (void *) 0);)
FN(218, P(area, sect, 2.5f, -v->f, v->u16, v->sz, v->u16, v->ull << 3, v->us, v->c + 1);)
FN(219, P(area, sect, v->sz, v->u8, v->i, v->cip, v->p, v->cll, v->u16, (short) (v->i >> 3));)
FN(220, P(area, sect, v->i32, ~v->u, v->s, -5ll, (_BOOL) !v->i, un, 5, *v->ip);)
FN(221, P(area, sect, v->ul, (void *) 0, v->i64, v->ms, (char) 65, v->b, un, 5l);)
FN(222, P(area, sect, hogl_string(v->uarr), 5ul, v->p, ~v->u, (char) 65, v->s, ~v->u, *v->ip);)
FN(223, P(area, sect, v->cu, v->f, v->ci, v->sz - 1, v->cs + v->n % 3, i, next(&count), v->ci);)
FN(224, P(area, sect, "a literal", v->ip, -5ll, 5ul, count++, (_BOOL) (v->i & 1), (char) 65, (_BOOL) !v->i);)
FN(225, P(area, sect, v->vp, v->i8, (char *) 0, 5, count++, (short) (v->i >> 3), v->u32, v->cip);)
FN(226, P(area, sect, *v->cs, v->ull, un, v->b, 5, v->d, args, count++);)
FN(227, P(area, sect, *v->ip, v->sz - 1, v->vp, args, v->ull << 3, count++, 5, 5ull, 2.5);)
FN(228, P(area, sect, v->sz, (unsigned char) v->i, v->ci, (short) (v->i >> 3), 5, -5, v->i8, (char *) 0, (char *) 0);)
FN(229, P(area, sect, hogl_string(v->ms), v->cu, (unsigned char) v->i, v->nul, -5ll, v->sc, v->cll, v->cd, v->d * 2);)
FN(230, P(area, sect, hogl_pointer(v->ip), v->vp, (short) (v->i >> 3), v->uc, v->cp, -v->f, 2.5f, hogl_string(v->arr), v->ci);)
FN(231, P(area, sect, v->us, v->cip, 5u, v->c, (short) (v->i >> 3), (_BOOL) (v->i & 1), (float) v->d, hogl_string(v->uarr), hogl_string(v->arr));)
FN(232, P(area, sect, v->c + 1, v->s, hogl_string(v->arr), v->d * 2, hogl_pointer(v->cs), v->ucp, hogl_pointer(v->ip), v->ci, (unsigned char) v->i);)
FN(233, P(area, sect, *v->cs, v->c + 1, &v->i, *v->cs, v->cp, v->sc, v->ip, v->cu, hogl_pointer(v->ip));)
FN(234, P(area, sect, (_BOOL) (v->i & 1), i, *v->ip, v->ci, (const void *) &v->d, v->uc, (_BOOL) !v->i, un, "");)
FN(235, P(area, sect, (void *) 0, v->ip, v->s, v->b, v->nul, ~v->u, v->b ? v->i : 3, v->d, v->sz - 1);)
FN(236, P(area, sect, v->i32, v->c, 5ull, 5ull, (char *) 0, ++count, v->ull << 3, (short) (v->i >> 3), -5, v->c + 1);)
FN(237, P(area, sect, 5u, v->u32, v->ci, (_BOOL) !v->i, v->l, v->cu, v->b, 2.5, next(&count), hogl_pointer(v->ip));)
FN(238, P(area, sect, v->c + 1, v->cd, v->vp, v->u8, (short) (v->i >> 3), ~v->u, (unsigned char) v->i, x0, (_BOOL) (v->i & 1), v->ucp);)
FN(239, P(area, sect, 5ull, next(&count), v->sz - 1, v->i, v->l, v->cs, hogl_pointer(v->cs), v->ll, v->l, v->uc);)
FN(240, P(area, sect, x0, 5ull, v->l, 5l, v->d * 2, v->i, v->cp, v->cp, v->sz, *v->ip);)
FN(241, P(area, sect, v->p, v->cip, v->ci, 2.5f, v->ucp, v->u16, *v->ip, v->u16, 5ul, v->i8);)
FN(242, P(area, sect, v->l, -v->f, v->u64, v->us, (float) v->d, v->d, 5, v->ul, hogl_string(v->uarr), v->u);)
FN(243, P(area, sect, ++count, v->i, v->cp, 5l, -v->f, v->cip, v->c, 2.5, v->ull, v->cll);)
FN(244, P(area, sect, (char *) 0, v->d * 2, v->d * 2, "a literal", (char) 65, v->u, v->cip, v->ci, v->ucp, count++);)
FN(245, P(area, sect, v->ull << 3, v->arr + 1, v->ci, (float) v->d, ~v->u, -v->f, v->sz, hogl_string(v->ms), v->l, ~v->u, v->ms);)
FN(246, P(area, sect, v->nul, hogl_pointer(v->ip), &v->i, v->cip, v->ms, (char) 65, v->b ? v->i : 3, -5, v->i16, v->ip, v->sc);)
FN(247, P(area, sect, i, v->ll, ++count, v->s, v->ull, v->cp, v->arr + 1, (char *) 0, v->b ? v->i : 3, v->ms, -5);)
FN(248, P(area, sect, (_BOOL) !v->i, (short) (v->i >> 3), args, v->d, (const void *) &v->d, v->uc, v->sz - 1, -5, v->i, v->ucp, 5ull);)
FN(249, P(area, sect, v->sz, v->p, v->ll, v->d * 2, v->u64, v->cip, -v->f, 5, "a literal", v->ms, v->ci);)
FN(250, P(area, sect, x0, *v->ip, un, -5, 5, v->cip, "a literal", v->ci, v->ull << 3, 2.5, "");)
FN(251, P(area, sect, &v->i, v->s, (void *) 0, ++count, v->u64, v->u16, 5u, v->l, v->f, v->s, v->s);)
FN(252, P(area, sect, v->u16, v->u32, v->u32, v->us, v->d * 2, (short) (v->i >> 3), un, v->b, 5ull, v->c + 1, v->cu);)
FN(253, P(area, sect, -v->f, 5ull, args, (_BOOL) !v->i, (_BOOL) !v->i, v->f, v->i32, v->ucp, v->i8, v->ul, (char) 65);)
FN(254, P(area, sect, -5, v->c + 1, v->ucp, ~v->u, v->nul, v->p, hogl_string(v->uarr), v->i8, hogl_pointer(v->ip), v->ms, v->s, (short) (v->i >> 3));)
FN(255, P(area, sect, v->s, un, (char) 65, v->cll, v->u, v->sc, v->b ? v->i : 3, v->c + 1, v->ucp, v->cp, args, v->ci);)
FN(256, P(area, sect, v->b ? v->i : 3, v->ms, v->i8, v->s, v->u32, v->uc, ++count, v->cs, v->ll, -v->f, 5l, "");)
FN(257, P(area, sect, v->cd, v->u16, (_BOOL) !v->i, "", hogl_pointer(v->ip), v->l, (_BOOL) !v->i, v->i8, v->ms, v->i16, v->i64, v->us);)
FN(258, P(area, sect, *v->cs, 2.5, hogl_pointer(v->cs), v->b, (_BOOL) !v->i, v->u, 1 + v->i / 2, 5ul, v->u8, v->us, v->s, ~v->u);)
FN(259, P(area, sect, &v->i, count++, un, v->f, v->ul, v->ms, v->d * 2, v->ull, v->c + 1, v->i, hogl_string(v->arr), v->i);)
FN(260, P(area, sect, (unsigned char) v->i, 5u, v->u, v->i, v->nul, 5ul, 1 + v->i / 2, v->cd, v->l % 7, v->i, v->s, v->i32);)
FN(261, P(area, sect, v->i16, v->cs + v->n % 3, v->l % 7, 5l, v->i32, (_BOOL) (v->i & 1), v->cs, v->ll, v->cll, v->d, v->ull, v->sz - 1);)
FN(262, P(area, sect, v->i8, (char *) 0, v->ul, v->u64, -v->f, v->sc, 2.5f, v->sz - 1, "a literal", v->d * 2, 5ull, ++count);)
FN(263, P(area, sect, 5, &v->i, v->ull << 3, v->ip, v->c, v->cd, 1 + v->i / 2, v->sz, ~v->u, v->p, v->cip, v->cd, (short) (v->i >> 3));)
FN(264, P(area, sect, v->ull, hogl_string(v->ms), 5l, v->cll, v->ip, v->ip, (_BOOL) (v->i & 1), v->ll, v->c + 1, hogl_string(v->arr), v->ll, 5ull, ++count);)
FN(265, P(area, sect, hogl_string(v->arr), hogl_string(v->uarr), v->u, (unsigned char) v->i, hogl_string(v->arr), v->i, v->u32, hogl_pointer(v->ip), (char) 65, v->f, v->ul, -5ll, v->cll);)
FN(266, P(area, sect, 5, (float) v->d, v->b, hogl_pointer(v->ip), v->ip, ++count, v->uc, 2.5f, v->vp, v->sc, v->i, 5ull, hogl_pointer(v->cs));)
FN(267, P(area, sect, v->d, 5, (float) v->d, v->ip, args, v->l, v->cd, v->u8, v->cip, hogl_string(v->ms), (unsigned char) v->i, args, hogl_pointer(v->ip));)
FN(268, P(area, sect, v->s, v->l, v->sz - 1, (float) v->d, v->uc, v->uc, v->cp, v->i, v->ip, "a literal", 2.5, hogl_string(v->ms), *v->ip);)
FN(269, P(area, sect, v->sc, v->cs, (const void *) &v->d, 5ull, v->ip, "", v->u32, x0, "a literal", v->c, v->i8, next(&count), -v->f);)
FN(270, P(area, sect, v->i8, v->f, hogl_pointer(v->cs), (const void *) &v->d, *v->cs, v->u8, v->ull << 3, v->vp, 1 + v->i / 2, 2.5, 5ull, v->cp, x0);)
FN(271, P(area, sect, v->cll, 1 + v->i / 2, v->cs, (_BOOL) !v->i, (char *) 0, 2.5, v->u8, 2.5f, v->i, v->i8, (_BOOL) (v->i & 1), v->c + 1, v->d * 2);)
FN(272, P(area, sect, (char *) 0, v->b, v->d, v->ip, -5ll, v->i, v->i64, v->b, v->s, ++count, v->ms, (short) (v->i >> 3), "a literal", 5u);)
FN(273, P(area, sect, (_BOOL) !v->i, v->u64, v->u32, hogl_string(v->uarr), v->u32, v->cu, (float) v->d, &v->i, "a literal", v->ms, "", "a literal", hogl_string(v->arr), v->u);)
FN(274, P(area, sect, -v->f, (unsigned char) v->i, 5l, un, v->vp, v->vp, v->ms, v->d * 2, 5, v->s, v->f, v->u8, 5u, v->f);)
FN(275, P(area, sect, hogl_pointer(v->ip), v->u32, args, (short) (v->i >> 3), v->c + 1, (_BOOL) (v->i & 1), -v->f, v->ull, v->u32, 5, v->c, v->d, v->cs + v->n % 3, *v->cs);)
FN(276, P(area, sect, (void *) 0, -v->f, v->u16, -5, v->sc, v->cll, v->uc, *v->ip, v->cd, v->cs + v->n % 3, -5, v->arr + 1, v->c + 1, v->sz - 1);)
FN(277, P(area, sect, 5l, 1 + v->i / 2, next(&count), (float) v->d, v->u, (_BOOL) (v->i & 1), v->vp, -5ll, "", (void *) 0, v->sc, &v->i, v->i64, hogl_pointer(v->ip));)
FN(278, P(area, sect, hogl_pointer(v->ip), v->ul, v->uc, v->ull, "a literal", *v->ip, next(&count), 5ul, v->cd, v->c, hogl_string(v->uarr), v->ms, v->ul, v->s);)
FN(279, P(area, sect, v->ull, v->cu, un, *v->cs, *v->ip, (float) v->d, v->i64, (short) (v->i >> 3), &v->i, v->ull, v->cp, v->ms, i, v->sz - 1);)
FN(280, P(area, sect, 5ull, 5u, v->b, -5, 5, v->i16, (const void *) &v->d, v->i64, *v->ip, args, -5, args, v->d, ~v->u);)
FN(281, P(area, sect, (char) 65, hogl_string(v->arr), v->f, v->u64, v->ci, v->cd, hogl_pointer(v->cs), -v->f, v->ul, v->u8, v->ul, v->ull << 3, 5ul, v->u16, v->sz);)
FN(282, P(area, sect, v->l, count++, v->i, v->ull << 3, v->l % 7, v->sz - 1, 5ul, -5ll, v->cs, 5ull, (short) (v->i >> 3), (const void *) &v->d, (char *) 0, hogl_string(v->arr), v->cu);)
FN(283, P(area, sect, -5ll, hogl_string(v->uarr), v->ll, *v->cs, x0, v->u16, -5ll, v->uc, v->ucp, v->p, v->ci, count++, (float) v->d, *v->cs, v->i);)
FN(284, P(area, sect, v->u16, 2.5, v->i32, args, (char *) 0, v->d, x0, v->ul, v->u, v->d * 2, v->cip, &v->i, v->ul, v->cll, v->i32);)
FN(285, P(area, sect, (_BOOL) !v->i, -5, v->cs, *v->ip, (short) (v->i >> 3), v->f, v->b, v->i32, v->i8, v->p, v->ull, x0, v->ucp, (char) 65, *v->ip);)
FN(286, P(area, sect, v->d, ++count, 2.5f, args, v->u16, ~v->u, v->i, v->ull << 3, v->d, "", v->d, v->l, v->u32, v->i64, args);)
FN(287, P(area, sect, (char) 65, v->i16, v->b ? v->i : 3, v->ll, hogl_string(v->arr), 5l, v->sz - 1, (_BOOL) !v->i, 5, v->b, v->cp, (char *) 0, (char) 65, v->ip, v->b);)
FN(288, P(area, sect, (unsigned char) v->i, 5, i, v->ul, v->d * 2, v->ci, v->sc, v->p, (short) (v->i >> 3), "a literal", v->u32, i, 5, v->vp, v->ci);)
FN(289, P(area, sect, (unsigned char) v->i, v->ull, ++count, v->p, v->ci, 5ul, i, v->l, &v->i, 2.5, v->i, v->sz, -5ll, v->ms, hogl_pointer(v->cs));)
FN(290, P(area, sect, v->ul, v->vp, hogl_pointer(v->cs), v->f, ~v->u, (short) (v->i >> 3), 2.5, v->u16, v->sz - 1, -5, hogl_string(v->arr), v->ull, 1 + v->i / 2, "a literal", v->ip, v->ll);)
FN(291, P(area, sect, v->b, v->vp, "", v->sc, v->sc, v->nul, (float) v->d, v->b ? v->i : 3, -5, &v->i, v->ll, v->i, v->u64, v->i32, 2.5f, v->c);)
FN(292, P(area, sect, v->c + 1, &v->i, v->ll, hogl_string(v->uarr), (char *) 0, v->c + 1, v->cs + v->n % 3, v->sc, v->i, v->i8, 5u, v->arr + 1, 2.5, (void *) 0, -v->f, v->l % 7);)
FN(293, P(area, sect, (void *) 0, v->s, v->u64, v->uc, -5ll, 5ul, 2.5, 5, v->c, v->u8, i, v->vp, v->cu, v->i32, 5ull, v->ul);)
FN(294, P(area, sect, (char) 65, v->u64, 5u, -5ll, v->i32, hogl_pointer(v->cs), v->cip, v->c + 1, "", hogl_pointer(v->ip), v->b, v->l % 7, v->cp, v->u8, v->b ? v->i : 3, v->ul);)
FN(295, P(area, sect, v->ul, 5, v->s, 5ul, v->ucp, v->u32, v->sc, (unsigned char) v->i, v->cll, (char *) 0, v->b ? v->i : 3, v->cip, (_BOOL) !v->i, v->ms, v->ul, "");)
FN(296, P(area, sect, -v->f, v->uc, v->c, v->u16, 5ull, v->ll, hogl_pointer(v->cs), v->ip, (char) 65, x0, v->u64, v->ucp, v->ci, &v->i, (float) v->d, v->ull);)
FN(297, P(area, sect, hogl_pointer(v->ip), v->p, v->d, 5l, (char) 65, v->cu, (char) 65, (short) (v->i >> 3), ~v->u, next(&count), 2.5f, v->ms, v->i, v->cip, hogl_string(v->ms), v->sc);)
FN(298, P(area, sect, v->sz - 1, v->c, -5, v->cip, v->ms, (short) (v->i >> 3), v->u, v->c, v->c, v->u64, -5ll, v->cs, v->arr + 1, *v->ip, v->ms, v->cd);)
FN(299, P(area, sect, v->fmt, v->arr + 1);)
FN(300, P(area, sect, v->fmt, v->s);)
FN(301, P(area, sect, v->fmt, un);)
FN(302, P(area, sect, v->fmt, (float) v->d);)
FN(303, P(area, sect, v->fmt, 2.5f, 1 + v->i / 2);)
FN(304, P(area, sect, v->fmt, v->cp, (char) 65);)
FN(305, P(area, sect, v->fmt, (const void *) &v->d, hogl_string(v->uarr));)
FN(306, P(area, sect, v->fmt, (char *) 0, -5);)
FN(307, P(area, sect, v->fmt, v->cu, v->u8, (void *) 0);)
FN(308, P(area, sect, v->fmt, 1 + v->i / 2, v->u, v->u64);)
FN(309, P(area, sect, v->fmt, -v->f, -5, v->f);)
FN(310, P(area, sect, v->fmt, v->cu, ~v->u, (char) 65);)
FN(311, P(area, sect, v->fmt, v->cip, v->b ? v->i : 3, un, v->l);)
FN(312, P(area, sect, v->fmt, v->b, count++, v->i, v->i64);)
FN(313, P(area, sect, v->fmt, v->b ? v->i : 3, v->us, v->u, v->ull);)
FN(314, P(area, sect, v->fmt, i, v->vp, (char) 65, i);)
FN(315, P(area, sect, v->fmt, hogl_string(v->uarr), (short) (v->i >> 3), v->vp, v->cp, hogl_string(v->ms));)
FN(316, P(area, sect, v->fmt, v->uc, v->ull << 3, v->nul, -5, v->u8);)
FN(317, P(area, sect, v->fmt, hogl_string(v->arr), hogl_string(v->ms), (void *) 0, 2.5f, v->i16);)
FN(318, P(area, sect, v->fmt, v->cip, count++, v->i, "a literal", (float) v->d);)
FN(319, P(area, sect, v->fmt, v->c, v->b ? v->i : 3, v->us, *v->ip, (unsigned char) v->i, v->us);)
FN(320, P(area, sect, v->fmt, (void *) 0, 5ul, v->cp, 5ul, (const void *) &v->d, *v->ip);)
FN(321, P(area, sect, v->fmt, *v->ip, ++count, v->sz, (_BOOL) (v->i & 1), v->p, v->l);)
FN(322, P(area, sect, v->fmt, v->ull, v->us, v->l, v->b ? v->i : 3, v->cu, (const void *) &v->d);)
FN(323, P(area, sect, v->fmt, v->l, hogl_pointer(v->cs), v->cp, 5l, v->cd, hogl_string(v->ms), v->b ? v->i : 3);)
FN(324, P(area, sect, v->fmt, v->cu, v->b, args, &v->i, (unsigned char) v->i, (_BOOL) !v->i, 5);)
FN(325, P(area, sect, v->fmt, v->u64, hogl_string(v->ms), v->cll, *v->ip, v->i64, v->b ? v->i : 3, v->ull);)
FN(326, P(area, sect, v->fmt, "a literal", v->ll, v->l % 7, 5ull, 2.5f, -v->f, &v->i);)
FN(327, P(area, sect, v->fmt, v->i16, v->u32, v->cip, v->d * 2, v->u8, v->arr + 1, 1 + v->i / 2, ++count);)
FN(328, P(area, sect, v->fmt, v->sc, v->vp, 2.5, hogl_pointer(v->cs), count++, (unsigned char) v->i, v->arr + 1, (_BOOL) (v->i & 1));)
FN(329, P(area, sect, v->fmt, (float) v->d, v->ms, v->u8, -5ll, ~v->u, v->nul, v->cll, v->ci);)
FN(330, P(area, sect, v->fmt, v->d, v->u32, hogl_string(v->ms), 5ull, "a literal", &v->i, hogl_string(v->ms), v->d * 2);)
FN(331, P(area, sect, v->fmt, v->ull, v->p, v->p, i, v->f, v->d, v->ull << 3, hogl_pointer(v->ip), next(&count));)
FN(332, P(area, sect, v->fmt, v->i, v->sz - 1, -5, v->i16, v->l % 7, x0, hogl_string(v->ms), v->f, 5ul);)
FN(333, P(area, sect, v->fmt, v->f, v->cd, v->l, v->ci, i, 5ul, 5ul, v->l, v->l);)
FN(334, P(area, sect, v->fmt, v->l, v->u16, v->us, v->f, v->arr + 1, 5ul, v->d, (_BOOL) !v->i, -5ll);)
FN(335, P(area, sect, v->fmt, v->sz, -5ll, v->uc, count++, v->sz - 1, v->ci, v->d, v->cs + v->n % 3, args, "");)
FN(336, P(area, sect, v->fmt, (_BOOL) !v->i, 5, v->d, v->u8, hogl_string(v->arr), v->p, *v->ip, (_BOOL) (v->i & 1), v->f, v->ll);)
FN(337, P(area, sect, v->fmt, 5, 2.5, v->p, hogl_pointer(v->cs), v->cd, ~v->u, v->b ? v->i : 3, 5ull, v->us, v->i64);)
FN(338, P(area, sect, v->fmt, v->cip, 5, v->l % 7, v->u16, v->i32, args, (const void *) &v->d, v->ul, v->cip, v->cd);)
FN(339, P(area, sect, v->fmt, (_BOOL) !v->i, v->cd, 2.5f, ~v->u, ++count, v->l % 7, v->arr + 1, v->nul, hogl_pointer(v->ip), v->u8, v->ull << 3);)
FN(340, P(area, sect, v->fmt, v->b ? v->i : 3, v->c + 1, 5l, *v->cs, v->f, v->cip, (char *) 0, v->u32, v->b ? v->i : 3, v->d, 2.5f);)
FN(341, P(area, sect, v->fmt, v->cip, hogl_string(v->arr), v->u8, v->ull, 1 + v->i / 2, v->nul, -v->f, (_BOOL) !v->i, v->i8, (short) (v->i >> 3), v->d);)
FN(342, P(area, sect, v->fmt, next(&count), v->nul, v->ull << 3, "a literal", v->i, v->sz - 1, (float) v->d, v->cp, v->i64, v->uc, i);)
FN(343, P(area, sect, v->fmt, (void *) 0, (short) (v->i >> 3), v->l % 7, v->d * 2, &v->i, *v->cs, hogl_pointer(v->ip), *v->cs, x0, v->u, hogl_pointer(v->ip), v->cip);)
FN(344, P(area, sect, v->fmt, -5ll, v->ci, -5ll, (char) 65, v->ip, v->ci, v->i32, v->s, v->b, v->d * 2, v->i8, v->cd);)
FN(345, P(area, sect, v->fmt, hogl_pointer(v->ip), -5ll, (void *) 0, (_BOOL) !v->i, i, (const void *) &v->d, v->arr + 1, args, *v->ip, v->c, v->i8, ++count);)
FN(346, P(area, sect, v->fmt, v->b, (_BOOL) (v->i & 1), (short) (v->i >> 3), (_BOOL) !v->i, (char) 65, v->us, v->cs, (_BOOL) (v->i & 1), v->b, (short) (v->i >> 3), v->cp, v->u32);)
FN(347, P(area, sect, v->fmt, v->u8, v->arr + 1, v->ms, 5l, v->d, -5, -5ll, v->cs, hogl_string(v->uarr), v->c, v->i64, v->ms, next(&count));)
FN(348, P(area, sect, v->fmt, v->arr + 1, (char) 65, 2.5, next(&count), v->cd, v->sz, v->f, (char) 65, (float) v->d, (char *) 0, ~v->u, 2.5f, v->u);)
FN(349, P(area, sect, v->fmt, (const void *) &v->d, v->b, v->vp, 5ull, v->u, (_BOOL) !v->i, v->c, v->i32, v->i32, v->d, v->i16, v->b ? v->i : 3, 2.5f);)
FN(350, P(area, sect, v->fmt, (short) (v->i >> 3), v->ci, &v->i, v->ul, v->uc, *v->ip, -v->f, (_BOOL) !v->i, -v->f, *v->ip, *v->cs, -v->f, v->i64);)
FN(351, P(area, sect, v->fmt, 2.5f, v->arr + 1, v->u32, v->l, i, v->u32, v->f, (_BOOL) (v->i & 1), (char) 65, v->ull, v->i16, v->sz, 5u, v->b);)
FN(352, P(area, sect, v->fmt, 5ull, v->u, v->cu, v->i32, -5, 5u, v->u8, v->p, -5, v->i32, v->u64, v->ip, 5l, 1 + v->i / 2);)
FN(353, P(area, sect, v->fmt, 5ul, v->uc, hogl_string(v->uarr), v->b ? v->i : 3, (const void *) &v->d, v->u32, hogl_pointer(v->cs), v->ull, v->cs, 5ull, -5ll, (float) v->d, 2.5f, v->i32);)
FN(354, P(area, sect, v->fmt, args, next(&count), v->nul, v->us, v->i32, (_BOOL) (v->i & 1), v->i8, "", v->l % 7, v->f, *v->cs, 2.5, "", v->vp);)
FN(355, P(area, sect, v->fmt, hogl_pointer(v->ip), v->u16, v->b, v->sz - 1, v->ucp, 5ull, v->d, v->b, ~v->u, (_BOOL) !v->i, args, v->ll, v->d * 2, v->ucp, (char) 65);)
FN(356, P(area, sect, v->fmt, v->u, *v->cs, (char) 65, (short) (v->i >> 3), hogl_string(v->ms), ++count, 1 + v->i / 2, x0, *v->cs, (_BOOL) (v->i & 1), 5ul, v->u8, 5u, 5ull, (float) v->d);)
FN(357, P(area, sect, v->fmt, v->sc, v->cs, (short) (v->i >> 3), v->ci, v->d, v->cs + v->n % 3, v->ul, (_BOOL) (v->i & 1), (short) (v->i >> 3), v->sz, v->ll, (char *) 0, v->cll, v->f, v->ll);)
FN(358, P(area, sect, v->fmt, 5ul, v->i16, args, un, v->us, v->cd, v->ull << 3, v->cp, &v->i, v->ll, v->l % 7, v->ll, v->us, v->d * 2, v->cs + v->n % 3);)
FN(359, P(pick(area, &count), sect, v->i, "picked");)
FN(360, P(area, sect + next(&count) * 0, v->i);)
FN(361, if (v->i & 1) P(area, sect, v->i); else P(area, sect, v->u);)
static unsigned (*const calls[])(AREA, unsigned, struct s05_vals *) = {call_0, call_1, call_2, call_3, call_4, call_5, call_6, call_7, call_8, call_9, call_10, call_11, call_12, call_13, call_14, call_15, call_16, call_17, call_18, call_19, call_20, call_21, call_22, call_23, call_24, call_25, call_26, call_27, call_28, call_29, call_30, call_31, call_32, call_33, call_34, call_35, call_36, call_37, call_38, call_39, call_40, call_41, call_42, call_43, call_44, call_45, call_46, call_47, call_48, call_49, call_50, call_51, call_52, call_53, call_54, call_55, call_56, call_57, call_58, call_59, call_60, call_61, call_62, call_63, call_64, call_65, call_66, call_67, call_68, call_69, call_70, call_71, call_72, call_73, call_74, call_75, call_76, call_77, call_78, call_79, call_80, call_81, call_82, call_83, call_84, call_85, call_86, call_87, call_88, call_89, call_90, call_91, call_92, call_93, call_94, call_95, call_96, call_97, call_98, call_99, call_100, call_101, call_102, call_103, call_104, call_105, call_106, call_107, call_108, call_109, call_110, call_111, call_112, call_113, call_114, call_115, call_116, call_117, call_118, call_119, call_120, call_121, call_122, call_123, call_124, call_125, call_126, call_127, call_128, call_129, call_130, call_131, call_132, call_133, call_134, call_135, call_136, call_137, call_138, call_139, call_140, call_141, call_142, call_143, call_144, call_145, call_146, call_147, call_148, call_149, call_150, call_151, call_152, call_153, call_154, call_155, call_156, call_157, call_158, call_159, call_160, call_161, call_162, call_163, call_164, call_165, call_166, call_167, call_168, call_169, call_170, call_171, call_172, call_173, call_174, call_175, call_176, call_177, call_178, call_179, call_180, call_181, call_182, call_183, call_184, call_185, call_186, call_187, call_188, call_189, call_190, call_191, call_192, call_193, call_194, call_195, call_196, call_197, call_198, call_199, call_200, call_201, call_202, call_203, call_204, call_205, call_206, call_207, call_208, call_209, call_210, call_211, call_212, call_213, call_214, call_215, call_216, call_217, call_218, call_219, call_220, call_221, call_222, call_223, call_224, call_225, call_226, call_227, call_228, call_229, call_230, call_231, call_232, call_233, call_234, call_235, call_236, call_237, call_238, call_239, call_240, call_241, call_242, call_243, call_244, call_245, call_246, call_247, call_248, call_249, call_250, call_251, call_252, call_253, call_254, call_255, call_256, call_257, call_258, call_259, call_260, call_261, call_262, call_263, call_264, call_265, call_266, call_267, call_268, call_269, call_270, call_271, call_272, call_273, call_274, call_275, call_276, call_277, call_278, call_279, call_280, call_281, call_282, call_283, call_284, call_285, call_286, call_287, call_288, call_289, call_290, call_291, call_292, call_293, call_294, call_295, call_296, call_297, call_298, call_299, call_300, call_301, call_302, call_303, call_304, call_305, call_306, call_307, call_308, call_309, call_310, call_311, call_312, call_313, call_314, call_315, call_316, call_317, call_318, call_319, call_320, call_321, call_322, call_323, call_324, call_325, call_326, call_327, call_328, call_329, call_330, call_331, call_332, call_333, call_334, call_335, call_336, call_337, call_338, call_339, call_340, call_341, call_342, call_343, call_344, call_345, call_346, call_347, call_348, call_349, call_350, call_351, call_352, call_353, call_354, call_355, call_356, call_357, call_358, call_359, call_360, call_361};
#endif
#define S05_CALLS_N 362
#define S05_FMT_I 88
