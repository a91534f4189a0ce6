// What escapes every handler while an execution runs: rejections nobody handles and exceptions nobody catches.
export const escaped = { current: undefined, onException: undefined, rejections: [] }
process.on('unhandledRejection', (reason) => { escaped.rejections.push(reason) })
process.on('uncaughtException', (e) => { if (escaped.onException) escaped.onException(e); else throw e })
