// C17: histories of K list operations against an array. SORT=0: any operation but sorted insertion; 1: a list kept in
// descending order by insert_sorted; 2: ascending, by insert_sorted_rev. Two lists, nodes moved between them.
#include "vp_env.h"
#include "rmc_list.h"
#define malloc vp_malloc
#define free vp_free
#include "rmc_list_template.h"
#ifndef SORT
#define SORT 0
#endif
typedef struct { uint8_t key; uint16_t id; } el_t;
RMC_LIST(vlist_t, vnode_t, el_t)
RMC_LIST_IMPL(vlist_t, vnode_t, el_t)
#define CAP (K + 1)
static vlist_t list[2];
static struct { el_t e[CAP]; uint32_t n; } m[2];
static uint32_t next_id, own_alloc, own_free, tag;
static vnode_t* alloc(void* u) { VP_ASSERT(u == &tag, "the allocator gets its user data"); own_alloc++; return (vnode_t*) vp_malloc(sizeof(vnode_t)); }
static void release(vnode_t* n, void* u) { VP_ASSERT(u == &tag, "the allocator gets its user data"); own_free++; vp_free(n); }
static void m_in(int l, uint32_t at, el_t e)
{
    uint32_t i;
    for (i = m[l].n; i > at; --i) m[l].e[i] = m[l].e[i - 1];
    m[l].e[at] = e;
    m[l].n++;
}
static el_t m_out(int l, uint32_t at)
{
    el_t e = m[l].e[at];
    m[l].n--;
    for (; at < m[l].n; ++at) m[l].e[at] = m[l].e[at + 1];
    return e;
}
static void check(void)
{
    int l;
    uint32_t i;
    for (l = 0; l < 2; ++l) {
        vnode_t* n = vlist_t_head(&list[l]);
        VP_ASSERT(vlist_t_size(&list[l]) == m[l].n, "the size is the number of elements");
        for (i = 0; i < m[l].n; ++i, n = vlist_t_next(n)) {
            VP_ASSERT(n != 0, "walking forward meets every element");
            VP_ASSERT(n->data.id == m[l].e[i].id && n->data.key == m[l].e[i].key, "walking forward gives the elements in order");
        }
        VP_ASSERT(n == 0, "walking forward ends");
        n = vlist_t_tail(&list[l]);
        for (i = m[l].n; i-- > 0; n = vlist_t_prev(n)) {
            VP_ASSERT(n != 0, "walking backward meets every element");
            VP_ASSERT(n->data.id == m[l].e[i].id, "walking backward gives the reverse order");
        }
        VP_ASSERT(n == 0, "walking backward ends");
    }
    VP_ASSERT(vp_heap_live == m[0].n + m[1].n, "every element is one block of memory");
}
static vnode_t* at(int l, uint32_t i)
{
    vnode_t* n = vlist_t_head(&list[l]);
    while (i--) n = vlist_t_next(n);
    return n;
}
static int cmp(el_t a, el_t b, void* u) { return a.key < b.key ? -1 : a.key > b.key; }
static int match(el_t needle, el_t hay, void* u)
{
    if (hay.key == needle.key) return 1;
    return *(uint8_t*) u && hay.key > needle.key ? -1 : 0;   // optionally gives up at a larger one
}
static uint32_t seen, limit;
static uint16_t seen_id[CAP];
static uint8_t visit(vnode_t* n, void* u) { VP_ASSERT(u == &tag && seen < CAP, "for_each passes its user data"); seen_id[seen++] = n->data.id; return seen != limit; }
static el_t fresh(void) { el_t e; e.key = vp_range8(0, 3); e.id = ++next_id; return e; }
static void step(int l)
{
    uint8_t op = vp_range8(0, 15), give_up;
    uint32_t i, p;
    el_t e, *found;
    vnode_t *n, *r;
    switch (op) {
    case 0: case 1: case 2: case 3:
        if (SORT) VP_STOP();
        e = fresh();
        if (op == 0) { r = vlist_t_push_head(&list[l], e); m_in(l, 0, e); }
        else if (op == 1) { r = vlist_t_push_tail(&list[l], e); m_in(l, m[l].n, e); }
        else {
            if (!m[l].n) VP_STOP();
            p = vp_range(0, m[l].n - 1);
            r = op == 2 ? vlist_t_insert_before(at(l, p), e) : vlist_t_insert_after(at(l, p), e);
            m_in(l, op == 2 ? p : p + 1, e);
        }
        VP_ASSERT(r && r->data.id == e.id, "insertion returns the element's node");
        break;
    case 4:
        if (!m[l].n) VP_STOP();
        p = vp_range(0, m[l].n - 1);
        vlist_t_delete(at(l, p)); m_out(l, p);
        break;
    case 5: case 6:
        e.id = 0;
        if (op == 5 ? vlist_t_pop_head(&list[l], &e) : vlist_t_pop_tail(&list[l], &e)) {
            VP_ASSERT(m[l].n, "popping an empty list fails");
            VP_ASSERT(e.id == m_out(l, op == 5 ? 0 : m[l].n - 1).id, "popping gives the element at that end");
        } else
            VP_ASSERT(!m[l].n && !e.id, "popping fails on an empty list only");
        break;
    case 7: case 8: case 9:   // a node leaves one list and enters the other, at either end
        if (op == 7) {
            if (!m[l].n) VP_STOP();
            p = vp_range(0, m[l].n - 1);
            n = at(l, p);
            VP_ASSERT(vlist_t_unlink(n) == n, "unlinking returns the node");
        } else {
            p = op == 8 || !m[l].n ? 0 : m[l].n - 1;
            n = op == 8 ? vlist_t_pop_head_node(&list[l]) : vlist_t_pop_tail_node(&list[l]);
            VP_ASSERT(!n == !m[l].n, "popping fails on an empty list only");
            if (!n) break;
        }
        e = m_out(l, p);
        VP_ASSERT(n->data.id == e.id, "the element at that place is taken out");
        VP_ASSERT(vlist_t_size(&list[l]) == m[l].n, "the size is the number of elements");
        if (SORT == 1) { r = vlist_t_insert_sorted_node(&list[!l], n, cmp, 0); for (i = 0; i < m[!l].n && m[!l].e[i].key > e.key; ++i) ; }
        else if (SORT == 2) { r = vlist_t_insert_sorted_node_rev(&list[!l], n, cmp, 0); for (i = 0; i < m[!l].n && m[!l].e[i].key <= e.key; ++i) ; }
        else {
            uint8_t w = m[!l].n ? vp_range8(0, 3) : vp_flag();
            i = w == 0 ? 0 : w == 1 ? m[!l].n : vp_range(0, m[!l].n - 1);
            r = w == 0 ? vlist_t_push_head_node(&list[!l], n) : w == 1 ? vlist_t_push_tail_node(&list[!l], n) :
                w == 2 ? vlist_t_insert_before_node(at(!l, i), n) : vlist_t_insert_after_node(at(!l, i), n);
            if (w == 3) ++i;
        }
        VP_ASSERT(r == n, "insertion returns the element's node");
        m_in(!l, i, e);
        break;
    case 10: case 11:
        e.key = vp_range8(0, 3); e.id = 0; give_up = vp_flag(); found = 0;
        for (p = 0; p < m[l].n; ++p) {
            i = op == 10 ? p : m[l].n - 1 - p;
            if (m[l].e[i].key == e.key) { found = &m[l].e[i]; break; }
            if (give_up && m[l].e[i].key > e.key) break;
        }
        n = op == 10 ? vlist_t_find_node(&list[l], e, match, &give_up) : vlist_t_find_node_rev(&list[l], e, match, &give_up);
        VP_ASSERT(!n == !found, "searching finds an element if there is one before the search gives up");
        VP_ASSERT(!n || n->data.id == found->id, "searching finds the first match in its direction");
        VP_REACH(n && n->data.id != m[l].e[op == 10 ? 0 : m[l].n - 1].id, "a match behind another element");
        break;
    case 12: case 13:
        seen = 0; limit = vp_range(1, K);
        if (op == 12) vlist_t_for_each(&list[l], visit, &tag); else vlist_t_for_each_rev(&list[l], visit, &tag);
        VP_ASSERT(seen == (limit < m[l].n ? limit : m[l].n), "for_each visits elements until told to stop");
        for (i = 0; i < seen; ++i) VP_ASSERT(seen_id[i] == m[l].e[op == 12 ? i : m[l].n - 1 - i].id, "for_each visits elements in order");
        break;
    case 14:
        vlist_t_empty(&list[l]); m[l].n = 0;
        break;
    case 15:
        if (!SORT) VP_STOP();
        e = fresh();
        if (SORT == 1) { r = vlist_t_insert_sorted(&list[l], e, cmp, 0); for (i = 0; i < m[l].n && m[l].e[i].key > e.key; ++i) ; }
        else { r = vlist_t_insert_sorted_rev(&list[l], e, cmp, 0); for (i = 0; i < m[l].n && m[l].e[i].key <= e.key; ++i) ; }
        VP_ASSERT(r && r->data.id == e.id, "insertion returns the element's node");
        m_in(l, i, e);
        break;
    }
}
void harness(void)
{
    int i;
    uint8_t own = vp_flag();
    for (i = 0; i < 2; ++i) vlist_t_init(&list[i], &tag, own ? alloc : 0, own ? release : 0);
    check();
#ifdef PREFILL
    for (i = 0; i < PREFILL; ++i) {
        el_t e = fresh();
        uint32_t j;
        if (SORT == 1) { for (j = 0; j < m[0].n && m[0].e[j].key > e.key; ++j) ; vlist_t_insert_sorted(&list[0], e, cmp, 0); }
        else if (SORT == 2) { for (j = 0; j < m[0].n && m[0].e[j].key <= e.key; ++j) ; vlist_t_insert_sorted_rev(&list[0], e, cmp, 0); }
        else { j = m[0].n; vlist_t_push_tail(&list[0], e); }
        m_in(0, j, e);
    }
    check();
    for (i = PREFILL; i < K; ++i) {
#else
    for (i = 0; i < K; ++i) {
#endif
        step(vp_flag());
        check();
    }
    for (i = 0; i < 2; ++i) { vlist_t_empty(&list[i]); m[i].n = 0; }
    check();
    VP_ASSERT(own_alloc == own_free, "what the list's allocator gave goes back to it");
    VP_WITNESS("end");
}
