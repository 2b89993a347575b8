export { requestRanges } from "/repo/src/resolver/range-request";
export { cache } from "/repo/src/resolver/cache";
export { LengthIntegrityError } from "/repo/src/resolver/resolver";
