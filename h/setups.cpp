#include "setups_model.hpp"
// hand-written mirror of setups.hpp
const std::vector<model::Cfg>& setup_cfgs() {
    using model::Cfg;
    auto mk = [](const char* name, char q, const char* e, const char* l, const char* r, bool ml = false, size_t lim = 0, bool ie = false, bool ih = false) {
        Cfg c;
        c.name = name;
        c.quote = q;
        c.esc = e;
        c.tl = l;
        c.tr = r;
        c.ml = ml;
        c.limit = lim;
        c.ign_empty = ie;
        c.ign_header = ih;
        return c;
    };
    static const std::vector<Cfg> v = {
        mk("-", 0, "", "", ""),                                                     // 0
        mk("quote", '"', "", "", ""),                                               // 1
        mk("escape", 0, "\\", "", ""),                                              // 2
        mk("quote escape", '"', "\\", "", ""),                                      // 3
        mk("trim", 0, "", " ", " "),                                                // 4
        mk("quote trim2", '"', "", " \t", " \t"),                                   // 5
        mk("escape trim", 0, "\\", " ", " "),                                       // 6
        mk("quote escape trim2", '"', "\\", " \t", " \t"),                          // 7
        mk("quote multiline", '"', "", "", "", true),                               // 8
        mk("escape multiline", 0, "\\", "", "", true),                              // 9
        mk("quote escape multiline", '"', "\\", "", "", true),                      // 10
        mk("quote escape trim multiline", '"', "\\", " ", " ", true),               // 11
        mk("quote escape trim2 multiline<2>", '"', "\\", " \t", " \t", true, 2),    // 12
        mk("quote multiline<1>", '"', "", "", "", true, 1),                         // 13
        mk("escape multiline<2>", 0, "\\", "", "", true, 2),                        // 14
        mk("quote' escape2 multiline<4>", '\'', "\\^", "", "", true, 4),            // 15
        mk("quote trim_left", '"', "", " ", ""),                                    // 16
        mk("escape trim_right", 0, "\\", "", " "),                                  // 17
        mk("quote escape trim_left_ trim_right", '"', "\\", "_", " "),              // 18
        mk("ignore_empty", 0, "", "", "", false, 0, true),                          // 19
        mk("ignore_empty quote trim", '"', "", " ", " ", false, 0, true),           // 20
        mk("ignore_empty quote multiline", '"', "", "", "", true, 0, true),         // 21
        mk("ignore_empty quote escape trim multiline", '"', "\\", " ", " ", true, 0, true), // 22
        mk("quote' escape2", '\'', "\\^", "", ""),                                  // 23
        mk("ignore_header", 0, "", "", "", false, 0, false, true),                  // 24
        mk("ignore_header ignore_empty quote multiline", '"', "", "", "", true, 0, true, true), // 25
        mk("ignore_empty quote escape trim multiline<3>", '"', "\\", " ", " ", true, 3, true),  // 26
        mk("quote escape trim_left trim_right multiline", '"', "\\", " ", " ", true),           // 27
        mk("ignore_header escape multiline", 0, "\\", "", "", true, 0, false, true),            // 28
        mk("quote trim", '"', "", " ", " "),                                        // 29
        mk("quote escape7 trim6", '"', "\\^~/%`\xff", " \t_.\xa0*", " \t_.\xa0*"),   // 30
        mk("quote escape multiline<300>", '"', "\\", "", "", true, 300),            // 31
    };
    return v;
}
