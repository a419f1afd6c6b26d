// requests to the harness on the error output, answers on the input
const fs = require("fs");
let rest = Buffer.alloc(0);
function line() {
    for (;;) {
        const i = rest.indexOf(10);
        if (i >= 0) {
            const l = rest.slice(0, i).toString();
            rest = rest.slice(i + 1);
            return l;
        }
        const b = Buffer.alloc(65536);
        const n = fs.readSync(0, b, 0, b.length, null);
        if (n === 0) throw new Error("the network is gone");
        rest = Buffer.concat([rest, b.slice(0, n)]);
    }
}
exports.request = (r) =>
    new Promise((resolve, reject) => {
        fs.writeSync(2, "\u0001" + JSON.stringify(r) + "\n");
        const a = JSON.parse(line());
        setImmediate(() => ("ok" in a ? resolve(a.ok) : reject(new Error(a.error))));
    });
exports.functions = (names) => {
    const out = {};
    for (const n of names) out[n] = (...args) => exports.request({ op: "call", f: n, args });
    return out;
};
