'use strict';
const rm = (p) => { if (!p.startsWith(process.env.SHIM_TMP)) throw new Error('outside the scratch directory: ' + p); require('fs').rmSync(p, { recursive: true, force: true }); };
module.exports = { sync: rm };
