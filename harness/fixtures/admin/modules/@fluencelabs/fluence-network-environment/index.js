// the networks the harness made up
const nets = JSON.parse(process.env.TGMON_NETWORKS);
const any = (l) => l[Math.floor(Math.random() * l.length)];
module.exports = { ...nets, randomKrasnodar: () => any(nets.krasnodar), randomTestNet: () => any(nets.testNet), randomStage: () => any(nets.stage) };
