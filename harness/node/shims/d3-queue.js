'use strict';
// d3-queue: at most n tasks at a time, results in the order of the tasks.
exports.queue = (n) => {
    const waiting = [], results = [];
    let active = 0, given = 0, open = 0, finish, error = null;
    const next = () => {
        while (waiting.length && active < (n || Infinity)) {
            const [i, f, args] = waiting.shift();
            active++;
            f(...args, (err, res) => {
                active--;
                open--;
                if (err && !error) error = err;
                results[i] = res;
                next();
            });
        }
        if (open === 0 && finish) {
            const f = finish;
            finish = null;
            f(error);
        }
    };
    const q = {
        defer: (f, ...args) => {
            waiting.push([given++, f, args]);
            open++;
            next();
            return q;
        },
        awaitAll: (cb) => {
            finish = (e) => cb(e, e ? undefined : results);
            next();
            return q;
        },
        await: (cb) => {
            finish = (e) => e ? cb(e) : cb(null, ...results);
            next();
            return q;
        }
    };
    return q;
};
