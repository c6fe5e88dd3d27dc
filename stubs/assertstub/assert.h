// assert() as an analysable branch, independent of NDEBUG.
#undef assert
#ifndef VERIF_ASSERT_FAIL
#define VERIF_ASSERT_FAIL
extern "C" [[noreturn]] void verif_assert_fail();
#endif
#define assert(x) ((x) ? (void)0 : verif_assert_fail())
