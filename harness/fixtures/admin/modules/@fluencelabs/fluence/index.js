// the part of the client library the tool uses, over the harness's network
const crypto = require("crypto");
const bs58 = require("bs58");
const link = require("tg-link");
class KeyPair {
    constructor(pid) {
        this.Libp2pPeerId = pid;
    }
    static async fromEd25519SK(seed) {
        if (!seed || seed.length !== 32) throw new Error("private key must be 32 bytes");
        const der = Buffer.concat([Buffer.from("302e020100300506032b657004220420", "hex"), Buffer.from(seed)]);
        const sk = crypto.createPrivateKey({ key: der, format: "der", type: "pkcs8" });
        const pk = crypto.createPublicKey(sk).export({ format: "der", type: "spki" }).slice(-32);
        const id = bs58.encode(Buffer.concat([Buffer.from([0, 36, 8, 1, 18, 32]), pk]));
        const toString = () => id;
        return new KeyPair({
            toB58String: toString,
            toString,
            pubKey: { bytes: pk },
            privKey: { sign: async (m) => Uint8Array.from(crypto.sign(null, Buffer.from(m), sk)) },
        });
    }
    static async randomEd25519() {
        return KeyPair.fromEd25519SK(crypto.randomBytes(32));
    }
    toEd25519PrivateKey() {
        throw new Error("not here");
    }
}
let status = { isInitialized: false, isConnected: false, peerId: null, relayPeerId: null };
const Fluence = {
    start: async (config) => {
        const c = config && config.connectTo;
        const relay = typeof c === "string" ? c.split("/").pop() : c ? c.peerId : null;
        const peer = await link.request({ op: "start", relay, multiaddr: typeof c === "string" ? c : c ? c.multiaddr : null });
        status = { isInitialized: true, isConnected: true, peerId: peer, relayPeerId: relay };
    },
    stop: async () => {
        status = { isInitialized: false, isConnected: false, peerId: null, relayPeerId: null };
    },
    getStatus: () => status,
    getPeer: () => ({ getStatus: () => status }),
};
module.exports = { Fluence, KeyPair };
