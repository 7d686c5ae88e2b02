/* The representation invariant of a buffer and a symbolic well-formed instance. */
#ifndef BUF_H_
#define BUF_H_
#include "embc/memory/buffer.h"
#define BUF_WF(b) ((b)->cursor <= (b)->length && (b)->length <= (b)->capacity && (b)->reserve <= (b)->capacity)
/* everything a buffer operation is allowed to leave alone */
#define BUF_SAME_ID(b, o) ((b)->data == (o).data && (b)->capacity == (o).capacity && (b)->reserve == (o).reserve && \
    (b)->buffer_id == (o).buffer_id && (b)->flags == (o).flags && (b)->manager == (o).manager && \
    (b)->item.next == (o).item.next && (b)->item.prev == (o).item.prev)
#define BUF_SAME(b, o) (BUF_SAME_ID(b, o) && (b)->cursor == (o).cursor && (b)->length == (o).length)
#define ROOM(o) ((long) (o).capacity - (long) (o).cursor - (long) (o).reserve)
#define AVAIL(o) ((long) (o).length - (long) (o).cursor)
#define BUF_MAKE(b) \
    uint16_t b##_cap = nd_u16(); \
    uint8_t * b##_mem = malloc(b##_cap); \
    REQUIRE(b##_mem != 0); \
    struct embc_list_s b##_l1, b##_l2; \
    struct embc_buffer_s b##_o = {.data = b##_mem, .capacity = b##_cap, .cursor = nd_u16(), .length = nd_u16(), \
        .reserve = nd_u16(), .buffer_id = nd_u16(), .flags = nd_u16(), .manager = &embc_buffer_manager_static, \
        .item = {&b##_l1, &b##_l2}}; \
    struct embc_buffer_s b##_b = b##_o; \
    struct embc_buffer_s * b = &b##_b; \
    REQUIRE(BUF_WF(b));
#endif
