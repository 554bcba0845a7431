// some models (a few bits choose backoffs and n-grams) and the score of a whole string, boundaries included
static Arpa modelOf(int k) {   // some models: a few bits choose backoffs and n-grams
  Arpa m; m.order = 3; m.add(ng(UNK), -p2(3), 0); m.add(ng(BOS), -99, -p2(-1)); m.add(ng(EOS), -p2(2), 0); m.add(ng(A), -p2(1), -p2(-2)); m.add(ng(B), -p2(0), -p2(-3));
  m.add(ng(A, B), -p2(-4), -p2(-9)); if (k & 1) { m.add(ng(BOS, A), -p2(-5), -p2(-10)); m.add(ng(BOS, A, B), -p2(-6), 0); } if (k & 2) { m.add(ng(B, A), -p2(-7), -3 * p2(-10)); m.add(ng(B, A, B), -p2(-8), 0); } if (k & 4) { m.add(ng(B, EOS), -p2(-4) - p2(-7), 0); m.add(ng(A, B, EOS), -p2(-11), 0); } m.add(ng(A, B, A), -p2(-12), 0);
  if (k & 8) { m.add(ng(A, A), -3 * p2(-3), -p2(-3)); m.add(ng(A, A, A), -3 * p2(-5), 0); }
  if (k & 16) { m.e.erase(ng(A, B, A)); if (!(k & 7)) m.add(ng(A, B, B), -1, 0); m.e[ng(A)].second = p2(-2); }
  return m;
}
static const int MODELS[] = {0, 7, 2, 5, 15, 23, 1, 3, 4, 6, 8, 9, 10, 11, 12, 13, 14, 16, 17, 18, 20, 22, 29, 31};
static double ref(const Arpa &m, const std::vector<int> &words, int &unk) {
  double s = 0; NG c(1, BOS); int len; unk = 0; BOOST_FOREACH(int w, words) { int x = w == Dict::WID("a") ? A : w == Dict::WID("b") ? B : UNK; if (x == UNK) unk++; s += m.score(c, x, len); c.push_back(x); } return s + m.score(c, EOS, len);
}
