'use strict';
const fs = require('fs');
const { compile, runPlain } = require('./explore');
process.on('unhandledRejection', (e) => { (globalThis.__vpRejections = globalThis.__vpRejections || []).push(e); });
const [, , code, job] = process.argv;
const j = JSON.parse(fs.readFileSync(job, 'utf8'));
runPlain(compile(fs.readFileSync(code, 'utf8'), false), j.cell, j.inputs).then((r) => { process.stdout.write(JSON.stringify(r)); process.exit(0); });
