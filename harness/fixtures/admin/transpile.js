// node transpile.js SRC OUT: every TypeScript file of SRC, compiled with SRC's own settings
const ts = require("/opt/veriftools/node/node_modules/typescript");
const fs = require("fs");
const path = require("path");
const [src, out] = process.argv.slice(2);
const conf = ts.readConfigFile(path.join(src, "tsconfig.json"), ts.sys.readFile).config || {};
const options = ts.convertCompilerOptionsFromJson(conf.compilerOptions || {}, src).options;
delete options.outDir;
options.target = ts.ScriptTarget.ES2020;
options.module = ts.ModuleKind.CommonJS;
const walk = (dir) => {
    for (const e of fs.readdirSync(path.join(src, dir), { withFileTypes: true })) {
        const name = path.join(dir, e.name);
        if (e.isDirectory()) {
            if (!["node_modules", "dist", "generated", "aqua"].includes(e.name)) walk(name);
        } else if (/\.ts$/.test(e.name) && !/\.d\.ts$/.test(e.name)) {
            const r = ts.transpileModule(fs.readFileSync(path.join(src, name), "utf8"), { compilerOptions: options, fileName: name, reportDiagnostics: true });
            const bad = (r.diagnostics || []).filter((d) => d.category === ts.DiagnosticCategory.Error && d.code < 5000);
            if (bad.length) throw new Error(name + ": " + ts.flattenDiagnosticMessageText(bad[0].messageText, " "));
            const to = path.join(out, name.replace(/\.ts$/, ".js"));
            fs.mkdirSync(path.dirname(to), { recursive: true });
            fs.writeFileSync(to, r.outputText);
        }
    }
};
walk("");
