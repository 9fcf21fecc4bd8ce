// Stand-ins for the AWS SDK modules: command objects that only carry their
// input. The servers behind them are in backends.mjs.
const cmd = (name) => ({ [name]: class { constructor(input) { this.input = input; this.op = name.replace(/Command$/, '') } } })[name]
export const GetCommand = cmd('GetCommand'), PutCommand = cmd('PutCommand'), DeleteCommand = cmd('DeleteCommand'), QueryCommand = cmd('QueryCommand'),
  ScanCommand = cmd('ScanCommand'), UpdateCommand = cmd('UpdateCommand'), BatchWriteCommand = cmd('BatchWriteCommand'), BatchGetCommand = cmd('BatchGetCommand'), TransactWriteCommand = cmd('TransactWriteCommand'),
  GetObjectCommand = cmd('GetObjectCommand'), PutObjectCommand = cmd('PutObjectCommand'), DeleteObjectCommand = cmd('DeleteObjectCommand'), DeleteObjectsCommand = cmd('DeleteObjectsCommand'),
  HeadObjectCommand = cmd('HeadObjectCommand'), CopyObjectCommand = cmd('CopyObjectCommand'), ListObjectsV2Command = cmd('ListObjectsV2Command'), ListObjectsCommand = cmd('ListObjectsCommand'), HeadBucketCommand = cmd('HeadBucketCommand')
export class S3Client { send() { throw new Error('no network') } }
export class DynamoDBClient { send() { throw new Error('no network') } }
export class DynamoDBDocumentClient { static from(c) { return c } }
