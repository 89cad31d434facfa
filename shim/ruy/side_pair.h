#ifndef VERIF_SHIM_RUY_SIDE_PAIR_H_
#define VERIF_SHIM_RUY_SIDE_PAIR_H_
namespace ruy {
enum class Side { kLhs = 0, kRhs = 1 };
inline Side OtherSide(Side s) { return s == Side::kLhs ? Side::kRhs : Side::kLhs; }
template <typename T>
class SidePair final {
 public:
  SidePair() {}
  SidePair(const T& a, const T& b) : e_{a, b} {}
  const T& operator[](Side s) const { return e_[(int)s]; }
  T& operator[](Side s) { return e_[(int)s]; }

 private:
  static_assert((int)Side::kLhs == 0 && (int)Side::kRhs == 1, "");
  T e_[2];
};
}  // namespace ruy
#endif
