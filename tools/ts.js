// Usage: node ts.js DIR: type-checks the modules DIR/<n>.ts, which share
// nothing, and prints "n line code message" for every error.
const ts = require(process.env.XV_TYPESCRIPT);
const fs = require('fs'), path = require('path');
const dir = process.argv[2];
const files = fs.readdirSync(dir).filter(f => f.endsWith('.ts')).map(f => path.join(dir, f));
const options = { noEmit: true, target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.ES2020, types: [], strict: true,
  strictPropertyInitialization: false, skipLibCheck: true, moduleDetection: ts.ModuleDetectionKind.Force, noResolve: true };
const program = ts.createProgram(files, options);
const out = [];
for (const f of files) {
  const sf = program.getSourceFile(f);
  for (const d of [...program.getSyntacticDiagnostics(sf), ...program.getSemanticDiagnostics(sf)]) {
    const line = sf.getLineAndCharacterOfPosition(d.start || 0).line + 1;
    out.push(path.basename(f, '.ts') + ' ' + line + ' TS' + d.code + ' ' + ts.flattenDiagnosticMessageText(d.messageText, ' ').replace(/\s+/g, ' '));
  }
}
for (const d of program.getGlobalDiagnostics().concat(program.getOptionsDiagnostics()))
  out.push('-1 0 TS' + d.code + ' ' + ts.flattenDiagnosticMessageText(d.messageText, ' ').replace(/\s+/g, ' '));
console.log(out.join('\n'));
