// C04: Matrix Market coordinate files.
#include "lib.hpp"

template <bool wgt>
static void mm(Src& s, Ctx& c) {
    gen_sched(s, c);
    EntSpec sp; sp.max_x = sp.max_y = C::max_sparse_label() - 2; sp.max_m = std::min<u64>(C::max_m(), (u64)std::numeric_limits<C::O>::max() - 2); sp.max_bulk = C::max_bulk();
    if (wgt) sp.w = wspec<C::W>();
    auto es = gen_entries(s, c, sp);
    Dims d = dims_of(es);
    u64 lim = (u64)std::numeric_limits<C::L>::max() - 1;
    u64 rows = std::max<u64>(d.nr, 1), cols = std::max<u64>(d.nc, 1), nnz = es.size();
    // larger than the entries need
    unsigned k = (unsigned)s.upto(9);
    if (k == 1 || k == 3) rows += s.biased(std::min<u64>(5000, lim - rows));
    if (k == 2 || k == 3) cols += s.biased(std::min<u64>(5000, lim - cols));
    // or contradicting them
    unsigned bad = (unsigned)s.upto(7);
    bool wrong = false;
    if (bad == 7 && d.nr > 1) { rows = 1 + s.upto(d.nr - 2); wrong = true; c.label("header:too few rows"); }
    else if (bad == 6 && d.nc > 1) { cols = 1 + s.upto(d.nc - 2); wrong = true; c.label("header:too few columns"); }
    else if (bad == 5) { nnz += 1 + s.upto(std::min<u64>(20, (u64)std::numeric_limits<C::O>::max() - nnz - 1)); wrong = true; c.label("header:too many non-zeros"); }
    else if (bad == 4 && nnz > 0) { nnz -= 1 + s.upto(nnz - 1); wrong = true; c.label("header:too few non-zeros"); }
    // the last entry may be cut off after its row
    bool cut = !wrong && s.upto(11) == 11 && nnz < (u64)std::numeric_limits<C::O>::max();
    if (cut) { ++nnz; wrong = true; c.label("header:last entry cut off"); }
    std::string text = mm_text(s, c, es, rows, cols, nnz, wgt, Dress());
    if (cut) { static const char* const AFTER[] = {"", " ", "\t", "\n", " \n", "\n\n", "\n% 3\n", "\r\n"}; text += "\n" + std::to_string(1 + s.upto(rows - 1)) + AFTER[s.upto(7)]; }
    bool autod = s.upto(1);
    c.note([&](std::ostream& o) { o << CONF_NAME[VP_PART] << "; " << (wrong ? "header contradicts the entries; " : "") << show(rt_get()) << "; " << show(es, wgt) << "\nfile " << quote(text); });
    std::string fn = put_file(autod ? "in.mtx" : "in.txt", text);
    if (wrong) {
        std::string what;
        pigo::FileType ft = autod ? pigo::AUTO : pigo::MATRIX_MARKET;
        // a wrong count is noticed whatever options drop or mirror
        unsigned opt = bad == 4 || bad == 5 || cut ? (unsigned)s.upto(7) : 0; bool t = false;
        auto refused = [&](auto* none) { typedef typename std::remove_pointer<decltype(none)>::type X; t = throws_error([&] { Own<X> coo(fn, ft); }, &what); };
        if ((opt == 1 || opt == 4) && 2 * (u64)es.size() > (u64)std::numeric_limits<C::O>::max()) opt = 0;
        switch (opt) {
            case 1: refused((CooT<C, true, false, false, wgt>*)nullptr); break;
            case 2: refused((CooT<C, false, true, false, wgt>*)nullptr); break;
            case 3: refused((CooT<C, false, false, true, wgt>*)nullptr); break;
            case 4: refused((CooT<C, true, true, true, wgt>*)nullptr); break;
            case 5: refused((CsrT<C, wgt>*)nullptr); break;
            default: refused((CooT<C, false, false, false, wgt>*)nullptr);
        }
        REQUIRE(t, "a header of " << rows << " " << cols << " " << nnz << " that contradicts " << es.size() << " entries in " << d.nr << " rows and " << d.nc << " columns was accepted");
        c.nontrivial = true;
        return;
    }
    auto check_sizes = [&](auto& m) {
        REQUIRE((u64)m.nrows() == rows + 1 && (u64)m.ncols() == cols + 1, "sizes are " << show_dims(m) << ", expected " << rows + 1 << "x" << cols + 1);
        REQUIRE((u64)m.m() == es.size(), "m is " << +m.m() << ", expected " << es.size());
    };
    bool dense_ok = rows < 70000 && cols < 70000;
    if (dense_ok && s.upto(2) == 2) {
        for (auto& e : es) { ++e.x; ++e.y; }
        Own<CsrT<C, wgt>> csr(fn, autod ? pigo::AUTO : pigo::MATRIX_MARKET);
        check_sizes(*csr);
        u64 n = (u64)csr->n();
        REQUIRE(n == std::max(rows, cols) + 1, "n is " << n << ", expected " << std::max(rows, cols) + 1);
        Rows r = csr_rows<wgt>(*csr, n);
        std::vector<std::vector<std::pair<u64, Wgt>>> want(n);
        if (!wgt || std::is_integral<C::W>::value) require_rows(r, rows_of(es, n, wgt), wgt, false, "CSR");
        else { for (auto& x : r) for (auto& e : x) e.w = 0; require_rows(r, rows_of(es, n, false), false, false, "CSR"); }
        c.label("into CSR");
    } else {
        Own<CooT<C, false, false, false, wgt>> coo(fn, autod ? pigo::AUTO : pigo::MATRIX_MARKET);
        check_sizes(*coo);
        REQUIRE((u64)coo->n() == std::max(rows, cols) + 1, "n is " << +coo->n() << ", expected " << std::max(rows, cols) + 1);
        auto got = entries<wgt>(*coo);
        for (size_t i = 0; i < es.size(); ++i) {
            REQUIRE(got[i].x == es[i].x + 1 && got[i].y == es[i].y + 1, "entry " << i << " is (" << got[i].x << "," << got[i].y << "), expected (" << es[i].x + 1 << "," << es[i].y + 1 << ")");
            if constexpr (wgt) REQUIRE(weq<C::W>((C::W)got[i].w, es[i].w), "entry " << i << " has weight " << got[i].w << ", expected " << es[i].w.t);
        }
    }
    REQUIRE(get_file(fn) == text, "reading changed the input file");
    c.nontrivial = es.size() >= 2 && rt_multi();
}
CPROP("C04/pattern", 3, mm<false>);
CPROP("C04/weighted", 2, mm<true>);

// Other Matrix Market formats are refused
static void other(Src& s, Ctx& c) {
    gen_sched(s, c, 8);
    static const char* H[] = {"%%MatrixMarket matrix array real general\n2 2\n1\n2\n3\n4\n", "%%MatrixMarket vector coordinate real general\n3 1\n1 4\n",
        "%MatrixMarket matrix coordinate real general\n2 2 1\n1 1 1\n", "2 2 1\n1 1\n", "%%MatrixMarket matrix coordinat", "\n%%MatrixMarket matrix coordinate real general\n2 2 1\n1 1 1\n", "%", "%%MatrixMarket"};
    std::string text = H[s.upto(sizeof H / sizeof *H - 1)];
    text += std::string(s.upto(3), '\n');
    c.note([&](std::ostream& o) { o << "not a coordinate file: " << quote(text); });
    std::string fn = put_file("in.mtx", text);
    REQUIRE(throws_error([&] { Own<CooT<C>> coo(fn); }), "accepted as COO");
    REQUIRE(throws_error([&] { Own<CsrT<C>> csr(fn); }), "accepted as CSR");
    c.nontrivial = true; c.label("other formats");
}
CPROP("C04/other", 1, other);
