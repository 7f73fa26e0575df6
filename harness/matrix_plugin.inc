inline auto symi_solver() const;
inline auto symi_svd(unsigned options = 0) const;
