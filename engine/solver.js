'use strict';
const { spawn } = require('child_process');
class Solver {
  constructor(cmd = 'z3-new', args = ['-in']) { this.cmd = cmd; this.args = args; this.start(); this.stats = { queries: 0, sat: 0, unsat: 0, unknown: 0, ms: 0 }; }
  start() {
    this.p = spawn(this.cmd, this.args, { stdio: ['pipe', 'pipe', 'inherit'] });
    this.buf = ''; this.out = ''; this.waiters = [];
    this.p.stdout.setEncoding('utf8');
    this.p.stdout.on('data', (d) => { this.buf += d; this.pump(); });
    this.p.stdin.on('error', () => {});
    this.p.on('exit', () => { this.dead = true; this.buf += '\n(error "solver exited")\n<<done>>\n'; this.pump(); });
  }
  pump() {
    let i;
    while (this.waiters.length && (i = this.buf.indexOf('<<done>>')) >= 0) {
      const r = this.buf.slice(0, i).trim(); this.buf = this.buf.slice(i + 8).replace(/^\s+/, '');
      this.waiters.shift()(r);
    }
  }
  send(s) { this.pend = (this.pend || '') + s + '\n'; }
  ask(s) {
    const text = (this.pend || '') + s + '\n(echo "<<done>>")\n'; this.pend = '';
    if (process.env.VP_SMT_LOG) require('fs').appendFileSync(process.env.VP_SMT_LOG, text);
    const t0 = process.hrtime.bigint();
    return new Promise((res) => {
      this.waiters.push((r) => { this.stats.ms += Number(process.hrtime.bigint() - t0) / 1e6; res(r); });
      this.p.stdin.write(text);
    });
  }
  close() { try { this.p.stdin.end(); this.p.kill('SIGKILL'); } catch (e) {} }
}
module.exports = { Solver };
