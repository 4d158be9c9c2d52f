// Type-checks TypeScript programs in strict mode: node typecheck.mjs < requests. A request is a JSON array of file
// names forming one program; the reply is a JSON array of the errors.
import fs from 'node:fs';
import path from 'node:path';
import readline from 'node:readline';
import { createRequire } from 'node:module';

const ts = createRequire('/opt/veriftools/node/node_modules/')('typescript');
const lib = path.join(path.dirname(new URL(import.meta.url).pathname), 'lib.d.ts');
const options = { strict: true, noEmit: true, noLib: true, target: ts.ScriptTarget.ES2021, module: ts.ModuleKind.CommonJS,
  moduleResolution: ts.ModuleResolutionKind.Node10, types: [], ignoreDeprecations: '5.0' };
const libSource = ts.createSourceFile(lib, fs.readFileSync(lib, 'utf8'), ts.ScriptTarget.ES2021, true);

for await (const line of readline.createInterface({ input: process.stdin })) {
  if (!line) continue;
  const files = JSON.parse(line);
  const host = ts.createCompilerHost(options);
  const get = host.getSourceFile;
  host.getSourceFile = (name, ...rest) => (name === lib ? libSource : get.call(host, name, ...rest));
  const program = ts.createProgram([lib, ...files], options, host);
  const out = ts.getPreEmitDiagnostics(program).map((d) => ({
    f: d.file ? path.basename(d.file.fileName) : '',
    l: d.file && d.start !== undefined ? ts.getLineAndCharacterOfPosition(d.file, d.start).line + 1 : 0,
    c: d.code,
    m: ts.flattenDiagnosticMessageText(d.messageText, ' ').slice(0, 300),
  }));
  process.stdout.write(`${JSON.stringify(out)}\n`);
}
