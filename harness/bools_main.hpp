FAMILY(l22, 2, 2, INITS, validLin, SOME, ALL)
FAMILY(l31, 3, 1, INITS, validLin, ALL, ALL)
FAMILY(d22, 2, 2, INITS, validFeed, SOME, ALL)
FAMILY(d31, 3, 1, INITS, validFeed, SOME, ALL)
int main(int argc, char** argv)
{
    mc::Scenario s[4];
    int n = 0;
    auto add = [&](const char* nm, auto body, long (*np)(), void (*sp)(long), int timeouts) {
        s[n] = {nm, body, spec, opname};
        s[n].nprog = np;
        s[n].setprog = sp;
        s[n].timeouts = timeouts;
        s[n].free_timeouts = true;
        s[n].tags = (body == bodyFeed ? 3 : 1) | 8;
        n++;
    };
    add("bools_2threads_x2ops", bodyLin, l22_n, l22_set, 1);
    add("bools_3threads_x1op", bodyLin, l31_n, l31_set, 1);
    add("bools_feed_2threads_x2ops", bodyFeed, d22_n, d22_set, 0);
    add("bools_feed_3threads_x1op", bodyFeed, d31_n, d31_set, 0);
    return mc::run_main(argc, argv, s, n);
}
