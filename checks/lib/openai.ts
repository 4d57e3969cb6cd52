/** Fake OpenAI SDK: resources as class instances with private state, results in every form the SDK uses. */
import type { World } from "../../mc/engine";

/** like the SDK's APIPromise: a lazy promise subclass with extra members */
export class ApiPromise<T> extends Promise<T> {
  #raw: string;
  constructor(ex: (res: (v: any) => void, rej: (e: any) => void) => void) {
    super(ex);
    this.#raw = "raw";
  }
  static get [Symbol.species]() {
    return Promise;
  }
  async withResponse() {
    return { data: await Promise.resolve(this), response: this.#raw };
  }
  asResponse() {
    return this.#raw;
  }
}
export class PagePromise extends ApiPromise<any> {
  async *[Symbol.asyncIterator]() {
    for (const x of (await this).data) yield x;
  }
}
export class Page {
  constructor(public data: any[]) {}
  getPaginatedItems() {
    return this.data;
  }
  async *[Symbol.asyncIterator]() {
    for (const x of this.data) yield x;
  }
}
/** like the SDK's Stream: iterable, with other members using private state */
export class FakeStream {
  #name = "stream";
  controller = { aborted: false };
  constructor(private make: () => AsyncIterator<any>) {}
  [Symbol.asyncIterator]() {
    return this.make();
  }
  describe() {
    return this.#name;
  }
}
export const client = (call: (self: any, path: string, args: any[]) => any) => {
  class Completions {
    #secret = 7;
    name = "completions";
    create(...args: any[]) {
      return call(this, "chat.completions.create", [this.#secret, ...args]);
    }
    get lazy() {
      return this.#secret;
    }
  }
  class Chat {
    completions = new Completions();
    list(...args: any[]) {
      return call(this, "chat.list", [7, ...args]);
    }
  }
  class Deep {
    a = { b: { c: { run: (...args: any[]) => call(null, "deep.a.b.c.run", [7, ...args]) } } };
  }
  class Client {
    chat = new Chat();
    deep = new Deep();
    apiKey = "key";
    #secret = 7;
    post(...args: any[]) {
      return call(this, "post", [this.#secret, ...args]);
    }
    get project() {
      return "p" + this.#secret;
    }
  }
  return new Client();
};
export const PATHS = ["chat.completions.create", "chat.list", "deep.a.b.c.run", "post"] as const;
export const invoke = (c: any, path: string, args: any[]) => {
  const parts = path.split(".");
  const last = parts.pop()!;
  let o = c;
  for (const p of parts) o = o[p];
  return o[last](...args);
};
export const settle = async (w: World, p: Promise<any>): Promise<{ ok: boolean; v: any } | undefined> => {
  let st: any;
  p.then((v) => (st = { ok: true, v }), (v) => (st = { ok: false, v }));
  for (let i = 0; i < 12 && !st; i++) await w.drain(1);
  return st;
};
