// base58 as the published bs58 package has it
const A = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
exports.encode = (bytes) => {
    let n = BigInt("0x0" + Buffer.from(bytes).toString("hex"));
    let s = "";
    for (; n > 0n; n /= 58n) s = A[Number(n % 58n)] + s;
    for (const b of bytes) {
        if (b !== 0) break;
        s = "1" + s;
    }
    return s;
};
exports.decodeUnsafe = (text) => {
    let n = 0n;
    for (const c of text) {
        const i = A.indexOf(c);
        if (i < 0) return undefined;
        n = n * 58n + BigInt(i);
    }
    let h = n === 0n ? "" : n.toString(16);
    if (h.length % 2) h = "0" + h;
    let zeros = 0;
    while (zeros < text.length && text[zeros] === "1") zeros++;
    return Uint8Array.from(Buffer.concat([Buffer.alloc(zeros), Buffer.from(h, "hex")]));
};
exports.decode = (text) => {
    if (typeof text !== "string") throw new TypeError("Expected String");
    const r = exports.decodeUnsafe(text);
    if (r === undefined) throw new Error("Non-base58 character");
    return r;
};
exports.default = exports;
