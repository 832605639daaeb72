'use strict';
const fs = require('fs'), path = require('path');
module.exports = { dirSync: () => ({ name: fs.mkdtempSync(path.join(process.env.SHIM_TMP, 't-')) }), setGracefulCleanup: () => {} };
